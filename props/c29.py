"""Packaging helpers of pack.py: configs, versions, urls, templates."""
import importlib.util
import json
import os
import shutil
import tempfile

from hypothesis import strategies as st

import gen
from harness import REPO, HarnessError, Violation

import props.c25 as http

ID = 'C29'
RULE = (
    'A case is one of: sections written and read back over several rounds; a set of releases served by a loopback index; '
    'tokens of a url; a template dictionary with nested, missing or circular fields. Non-trivial if at least two entries '
    '(options, releases, tokens, fields) were involved.'
)
ASSUMPTIONS = ['sockets on the loopback interface work']
CASES = {'quick': 6000, 'thorough': 100000}

WORD = st.text(alphabet='abcXYZ019-_.:/ \xe9\u65e5=#;,[]\'"()\\', min_size=1, max_size=12).map(str.strip).filter(
    lambda s: s and s[0] not in '#;=:'
)
NAME = st.text(alphabet='abcdefgh_xyz', min_size=1, max_size=6)
TOKEN = st.text(alphabet='ab.:?-', min_size=1, max_size=5)


@st.composite
def strategy(draw, tier):
    kind = draw(gen.weighted((3, st.just('config')), (2, st.just('version')), (2, st.just('url')), (4, st.just('template'))))
    if kind == 'config':
        value = gen.weighted((2, WORD), (1, st.just('')), (3, st.lists(WORD, min_size=1, max_size=4)))
        section = st.dictionaries(NAME, value, max_size=5)
        return {
            'kind': kind,
            'rounds': draw(
                st.lists(st.tuples(st.sampled_from(['metadata', 'options', 'other', None]), section).map(list), min_size=1, max_size=5)
            ),
            'comments': draw(st.booleans()),
        }
    if kind == 'version':
        # often releases that differ late only
        num = draw(st.sampled_from([gen.weighted((3, st.integers(0, 12)), (1, st.integers(0, 2000))), st.integers(0, 1), st.integers(9, 10)]))
        least = draw(st.integers(1, 4))
        return {
            'kind': kind,
            'releases': draw(st.lists(st.lists(num, min_size=least, max_size=5), max_size=8, unique_by=tuple)),
            'status': draw(st.sampled_from([200, 200, 200, 200, 404])),
            'dflt': draw(st.sampled_from([None, '1.0.0'])),
        }
    if kind == 'url':
        return {
            'kind': kind,
            'tokens': draw(
                st.lists(st.tuples(st.booleans(), st.lists(TOKEN, min_size=1, max_size=2), st.booleans()).map(list), max_size=5)
            ),
        }
    n = draw(st.integers(1, 6))
    names = [f'k{i}' for i in range(n)]
    given = draw(st.lists(st.sampled_from(['root', 'file', 'ext', 'n']), unique=True, max_size=4))
    d = []
    for i, name in enumerate(names):
        # refers to later entries only, unless a cycle or a gap is put in below
        pool = names[i + 1 :] + given
        parts = draw(st.lists(st.tuples(st.sampled_from(['', '/', 'x', '.']), st.integers(0, 9)).map(list), max_size=4))
        d.append([name, draw(gen.weighted((6, st.just('str')), (1, st.just('num')))), [[lit, pool[j % len(pool)] if pool and j < 7 else None] for lit, j in parts]])
    return {
        'kind': kind,
        'd': draw(st.permutations(d)),
        'given': {g: draw(gen.weighted((3, WORD.filter(lambda w: '{' not in w)), (1, st.integers(0, 99)))) for g in given},
        'clash': draw(st.lists(st.sampled_from(names), max_size=2)),
        'spoil': draw(gen.weighted((5, st.none()), (1, st.just('missing')), (1, st.just('cycle')), (1, st.just('self')))),
    }


PACK = None


def pack():
    global PACK
    if PACK is None:
        spec = importlib.util.spec_from_file_location('stream2py_pack_under_test', os.path.join(REPO, 'pack.py'))
        PACK = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(PACK)
    return PACK


def run(case, rec):
    rec.label(case['kind'])
    rec.nontrivial = globals()['run_' + case['kind']](case, rec, pack()) >= 2


def run_config(case, rec, p):
    tmp = tempfile.mkdtemp(prefix='verif-c29-')
    try:
        path = os.path.join(tmp, 'some.cfg')
        model = {}
        if case['comments']:
            with open(path, 'w') as f:
                f.write('[kept]\nname = x\nwords =\n\tone\n\t# not this\n\ttwo\n; nor this\n')
            model['kept'] = {'name': 'x', 'words': ['one', 'two']}
        for section, content in case['rounds']:
            given = json.loads(json.dumps(content))
            if section is None:
                p.write_configs(given, path)
                section = 'metadata'
            else:
                p.write_configs(given, config_file=path, section=section)
            if given != content:
                raise Violation('writing changes the given configuration')
            model[section] = content
            for name, want in model.items():
                got = p.read_configs(path) if name == 'metadata' else p.read_configs(path, section=name)
                if got != want:
                    raise Violation(f'section {name} is read as {got}, written was {want}')
            whole = p.read_configs(path, section=None)
            for name, want in model.items():
                if whole.get(name) != want:
                    raise Violation(f'reading all sections gives {whole} for {model}')
            if set(whole) - {'DEFAULT'} != set(model):
                raise Violation(f'reading all sections gives {sorted(whole)}, there are {sorted(model)}')
            raw = p.read_configs(path, section=section, postproc=None)
            if set(raw) != set(content) or not all(isinstance(v, str) for v in raw.values()):
                raise Violation(f'reading without postprocessing gives {raw}')
    finally:
        shutil.rmtree(tmp)
    return sum(len(m) for m in model.values())


def run_version(case, rec, p):
    rel = ['.'.join(map(str, r)) for r in case['releases']]
    for r, text in zip(case['releases'], rel):
        want = '.'.join(map(str, r[:-1] + [r[-1] + 1]))
        if p.increment_version(text) != want:
            raise Violation(f'the version after {text} is {p.increment_version(text)}')
    if http.SERVER is None:
        http.SERVER = http.Server()
    body = json.dumps({'info': {}, 'releases': {r: [] for r in rel}}).encode()
    head = 'HTTP/1.1 200 OK' if case['status'] == 200 else 'HTTP/1.1 404 Not Found'
    http.SERVER.payload = [f'{head}\r\nContent-Length: {len(body)}\r\n\r\n'.encode(), body]
    http.SERVER.requests = []
    url = f'http://127.0.0.1:{http.SERVER.port}/pypi/{{package}}/json'
    newest = max(case['releases']) if rel and case['status'] == 200 else None
    want = None if newest is None else '.'.join(map(str, newest))
    got = p.current_pypi_version('some-package', url)
    if got != want:
        raise Violation(f'the current version is {got}, the releases are {rel}')
    if 'GET /pypi/some-package/json' not in http.SERVER.requests[-1][0]:
        raise Violation(f'asked for {http.SERVER.requests[-1][0]}')
    kw = {} if case['dflt'] is None else {'version_if_current_version_none': case['dflt']}
    nxt = p.next_version_for_package('some-package', url, **kw)
    exp = (case['dflt'] or '0.0.1') if newest is None else '.'.join(map(str, newest[:-1] + [newest[-1] + 1]))
    if nxt != exp:
        raise Violation(f'the next version is {nxt}, the releases are {rel}, expected {exp}')
    return len(rel)


def run_url(case, rec, p):
    tokens = [a * '/' + '/'.join(w) + b * '/' for a, w, b in case['tokens']]
    got = p.ujoin(*tokens)
    want = '/'.join('/'.join(w) for _, w, _ in case['tokens'])
    if case['tokens']:
        want = case['tokens'][0][0] * '/' + want + case['tokens'][-1][2] * '/'
    if got != want:
        raise Violation(f'{tokens} joined is {got!r}, expected {want!r}')
    return len(tokens)


def run_template(case, rec, p):
    d = {}
    values = dict(case['given'])
    for name, kind, parts in case['d']:
        d[name] = len(parts) if kind == 'num' else ''.join(lit + ('{' + f + '}' if f else '') for lit, f in parts)
    spoil = case['spoil']
    strs = [name for name, kind, _ in case['d'] if kind == 'str']
    if not strs:
        spoil = None
    if spoil == 'missing':
        d[strs[0]] += '{nowhere}'
    elif spoil == 'self':
        d[strs[0]] = '{' + strs[0] + '}'
    elif spoil == 'cycle':
        if len(strs) < 2:
            spoil = None
        else:
            d[strs[0]], d[strs[1]] = 'a{' + strs[1] + '}', '{' + strs[0] + '}b'
    kwargs = dict(values, **{k: 'NOT-USED' for k in case['clash']})
    before = dict(d)
    try:
        got = p.format_str_vals_of_dict(d, **kwargs)
    except ValueError as e:
        if not spoil:
            raise Violation(f'{d} with {kwargs}: {e}')
        if spoil == 'missing' and 'nowhere' not in str(e):
            raise Violation(f'the error does not name the missing field: {e}')
        rec.label(spoil)
        return len(d)
    finally:
        if d != before:
            raise Violation('formatting changes the given dictionary')
    if spoil:
        raise Violation(f'{d} with {kwargs} gave {got} in spite of a {spoil} field')

    kinds = {name: (kind, parts) for name, kind, parts in case['d']}

    def full(name):
        if name not in kinds:
            return str(values[name])
        kind, parts = kinds[name]
        return str(d[name]) if kind == 'num' else ''.join(lit + (full(f) if f else '') for lit, f in parts)

    want = {name: d[name] if kinds[name][0] == 'num' else full(name) for name in d}
    if got != want or list(got) != list(d):
        raise Violation(f'{d} with {kwargs} gave {got}, expected {want}')
    return len(d)
