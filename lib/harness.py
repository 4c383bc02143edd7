"""Driver shared by all checks: generation, shrinking, replay files, evidence, exit codes.

A property module (props/<id>.py) provides
  ID, RULE, CASES = dict(quick=n, thorough=n)   number of generated cases over all workers
  strategy(tier) -> Hypothesis strategy of plain JSON values (the cases)
  big_cases(rnd, tier) -> list of cases (optional): big ones, run before the generated ones
  run(case, rec) -> None; raises Violation; rec.label(...), rec.nontrivial = True
"""
import collections
import gc
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPLAYS = os.path.join(VERIF, 'replays')
SHRINK_S = 60  # how long a worker makes a failing case smaller
EVIDENCE = os.path.join(VERIF, 'evidence')
CORPUS = os.path.join(VERIF, 'corpus')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself is broken (never a violation)."""


class Rec:
    """What one case exercised."""

    def __init__(self):
        self.nontrivial = False
        self.labels = set()

    def label(self, *names):
        self.labels.update(names)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def _through_repo(tb):
    """True if the exception was raised in, or passed through, the code under test."""
    return any(f.f_code.co_filename.startswith(REPO + os.sep) for f, _ in traceback.walk_tb(tb))


def execute(prop, case):
    """Run one case. -> (rec, None) or (rec, message)"""
    import vworld

    rec = Rec()
    try:
        prop.run(json.loads(json.dumps(case)), rec)
    except Violation as e:
        return rec, str(e)
    except vworld.Deadlock as e:
        return rec, f'deadlock: {e}'
    except vworld.Hang as e:
        return rec, f'no progress (hang): {e}'
    except vworld.Killed:
        raise HarnessError('Killed escaped')
    except BaseException as e:
        if _through_repo(e.__traceback__):
            where = [
                f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + os.sep)
            ][-1]
            return rec, (
                f'unexpected {type(e).__name__}: {e} from the code under test '
                f'({os.path.basename(where.filename)} in {where.name})'
            )
        if isinstance(e, (HarnessError, MemoryError)):
            raise
        # the programs of the cases run through on the unchanged tree: what fails here was given
        # something by the code under test that is not what it promises (None for a reader, ...)
        at = traceback.extract_tb(e.__traceback__)[-1]
        return rec, (
            f'unexpected {type(e).__name__}: {e} when using what the code under test provides '
            f'({os.path.basename(at.filename)} line {at.lineno}: {at.line})'
        )
    finally:
        vworld.reset_shadow_state()
    return rec, None


def _load(pid):
    return importlib.import_module(f'props.{pid.lower()}')


def run_worker(pid, tier, seed, n_cases, out_path, corpus):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 25
    prop = _load(pid)
    state = dict(evaluations=0, failing=None, harness=None, first=None)
    past = collections.deque(maxlen=400)
    distinct = set()
    labels = {}
    samples = []

    def account(case, rec):
        state['evaluations'] += 1
        for l in rec.labels:
            labels[l] = labels.get(l, 0) + 1
        if rec.nontrivial:
            h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
            if h not in distinct:
                distinct.add(h)
                if len(samples) < 2 or (len(samples) < 4 and len(distinct) % 97 == 0):
                    samples.append(case)
        if state['evaluations'] % 40 == 0:
            gc.collect()

    def one(case):
        if state['harness']:
            return None
        try:
            rec, msg = execute(prop, case)
        except BaseException:
            state['harness'] = traceback.format_exc() + '\ncase: ' + canon(case)[:4000]
            raise
        account(case, rec)
        if state['first'] is None:
            if msg:
                state['first'] = [json.loads(c) for c in past] + [case]
                past.clear()
            else:
                past.append(canon(case))
        return msg

    t0 = time.time()
    if hasattr(prop, 'big_cases') and n_cases > 0:
        import random

        corpus = list(corpus) + prop.big_cases(random.Random(seed), tier)
    try:
        for case in corpus:
            msg = one(case)
            if msg:
                state['failing'] = dict(case=case, message=msg)
                smaller(prop, state['failing'])
                break
        if not state['failing'] and n_cases > 0:

            failed = {}  # '' -> time of the first failure

            @hypothesis.seed(seed)
            @settings(
                max_examples=n_cases,
                database=None,
                deadline=None,
                phases=(Phase.generate, Phase.shrink),
                report_multiple_bugs=False,
                print_blob=False,
                suppress_health_check=[
                    HealthCheck.too_slow,
                    HealthCheck.large_base_example,
                    HealthCheck.data_too_large,
                ],
            )
            @given(prop.strategy(tier))
            def test(case):
                if failed and time.time() - failed[''] > SHRINK_S:
                    msg = failed.get(canon(case))  # no more runs: what is the smallest by now stays
                else:
                    msg = one(case)
                if msg:
                    failed.setdefault('', time.time())
                    failed[canon(case)] = msg
                    state['failing'] = dict(case=case, message=msg)
                    raise Violation(msg)

            try:
                test()
            except Violation:
                pass
            except hypothesis.errors.Flaky:
                if not state['failing']:
                    raise
    except BaseException:
        if state['harness'] is None:
            state['harness'] = traceback.format_exc()
    if state['failing'] and not state['harness']:
        # the minimal case has to fail again on its own, outside of Hypothesis
        try:
            rec, msg = execute(prop, state['failing']['case'])
        except BaseException:
            state['harness'] = traceback.format_exc()
        else:
            if msg is None:
                state['failing']['alone'] = False
            else:
                state['failing']['message'] = msg
    import vworld

    with open(out_path, 'w') as f:
        json.dump(
            dict(
                evaluations=state['evaluations'],
                distinct=sorted(distinct),
                labels=labels,
                samples=samples,
                failing=state['failing'],
                first=state['first'],
                harness=state['harness'],
                hits=sorted(f'{os.path.relpath(a, REPO)}:{b}' for a, b in vworld.LINE_HITS),
                totals={
                    os.path.relpath(a, REPO): len(b)
                    for a, b in vworld._ALL_LINES.items()
                    if b and '/tests/' not in a
                },
                wall=time.time() - t0,
            ),
            f,
        )


def smaller(prop, failing, seconds=45):
    """Leave out steps of a failing case that did not come from Hypothesis, as long as it fails."""
    t0 = time.time()
    for field in ('steps', 'ops', 'cmds', 'init'):
        if not isinstance(failing['case'].get(field), list):
            continue
        size = max(1, len(failing['case'][field]) // 2)
        i = 0
        while time.time() - t0 < seconds:
            steps = failing['case'][field]
            if i >= len(steps):
                if size == 1:
                    break
                i, size = 0, size // 2
                continue
            less = dict(failing['case'], **{field: steps[:i] + steps[i + size :]})
            try:
                msg = execute(prop, less)[1]
            except BaseException:
                msg = None
            if msg:
                failing.update(case=less, message=msg)
            else:
                i += size


def load_corpus(pid):
    path = os.path.join(CORPUS, f'{pid}.jsonl')
    if not os.path.isfile(path):
        return []
    with open(path) as f:
        return [json.loads(line)['case'] for line in f if line.strip()]


def known_findings(pid):
    if not os.path.isfile(KNOWN):
        return []
    out = []
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'open':
                    out.append(d)
    return out


def run_check(pid, tier, seed, workers=None, scale=1.0):
    """-> process exit code"""
    t0 = time.time()
    prop = _load(pid)
    n = max(1, int(prop.CASES[tier] * scale))
    workers = workers or getattr(prop, 'WORKERS', {}).get(tier) or (6 if tier == 'quick' else 8)
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    rounds = getattr(prop, 'ROUNDS', {}).get(tier, 1 if tier == 'quick' else 4)
    tmp = os.path.join(REPLAYS, f'.work-{pid}-{os.getpid()}')
    os.makedirs(tmp, exist_ok=True)
    merged = dict(evaluations=0, distinct=set(), labels={}, samples=[], hits=set(), totals={})
    failing = []
    harness = []
    limit = 840 if tier == 'quick' else 6 * 3600
    try:
        for rnd in range(rounds):
            procs = []
            per = max(1, n // (workers * rounds))
            for w in range(workers):
                out = os.path.join(tmp, f'{rnd}-{w}.json')
                wseed = (seed * 1_000_003 + rnd * 1009 + w * 7919 + 17) % (2**63)
                cmd = [sys.executable, os.path.join(VERIF, 'check.py'), pid, '--worker',
                       '--tier', tier, '--seed', str(wseed), '--cases', str(per), '--out', out]
                if w == 0 and rnd == 0:
                    cmd.append('--corpus')
                procs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
            for out, p in procs:
                try:
                    _, err = p.communicate(timeout=max(5, limit - (time.time() - t0)))
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    harness.append('worker ran out of time (inconclusive)')
                    continue
                if not os.path.isfile(out):
                    harness.append('worker died: ' + err.decode(errors='replace')[-3000:])
                    continue
                with open(out) as f:
                    r = json.load(f)
                merged['evaluations'] += r['evaluations']
                merged['distinct'].update(r['distinct'])
                merged['hits'].update(r['hits'])
                merged['totals'].update(r['totals'])
                for k, v in r['labels'].items():
                    merged['labels'][k] = merged['labels'].get(k, 0) + v
                merged['samples'].extend(r['samples'][: 2 if w < 2 else 1])
                if r['harness']:
                    harness.append(r['harness'])
                elif r['failing']:
                    failing.append(dict(r['failing'], first=r['first']))
            if failing or harness:
                break
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)

    known = known_findings(pid)
    replay = None
    if failing:
        failing.sort(key=lambda f: (not f.get('alone', True), len(canon(f['case']))))
        replay = os.path.join(REPLAYS, f'{pid}-seed{seed}.json')
        failing = confirm(pid, failing, replay, seed, harness, t0)
    cov = {}
    for file, total in sorted(merged['totals'].items()):
        hit = len({h for h in merged['hits'] if h.rpartition(':')[0] == file})
        if hit and not file.endswith('__init__.py'):
            cov[file] = f'{min(hit, total)}/{total}'
    samples = merged['samples'][:6]
    evidence = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level='exploration',
        coverage=dict(
            evaluations=merged['evaluations'],
            distinct_nontrivial=len(merged['distinct']),
            rule=prop.RULE,
            samples=[s if len(canon(s)) < 2500 else canon(s)[:2500] + '...' for s in samples],
            case_classes={k: merged['labels'][k] for k in sorted(merged['labels'])},
            lines_of_code_under_test_executed=cov,
            workers=workers,
            rounds=rounds,
        ),
        assumptions=getattr(prop, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2),
        violations=len(failing),
    )
    with open(os.path.join(EVIDENCE, f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)

    for k in known:
        print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    if failing:
        print(f'{pid}: {failing[0]["message"]}')
        print('case: ' + canon(failing[0]['case'])[:3000])
        print(f'VIOLATION property={pid} replay={replay}')
        return 1
    if harness:
        print(f'{pid}: error of the check itself (no verdict)', file=sys.stderr)
        print(harness[0], file=sys.stderr)
        return 2
    if merged['distinct'] and len(merged['distinct']) * 10 < merged['evaluations'] and tier == 'quick' and scale >= 1:
        print(f'{pid}: warning, few non-trivial cases', file=sys.stderr)
    print(
        f'{pid}: held on {merged["evaluations"]} cases '
        f'({len(merged["distinct"])} distinct non-trivial), {time.time() - t0:.1f}s'
    )
    return 0


def _write_replay(path, pid, seed, case, message, before):
    with open(path, 'w') as f:
        json.dump(dict(property=pid, seed=seed, message=message, before=before, case=case), f, indent=1)


def confirm(pid, failing, replay, seed, harness, started):
    """Writes the replay file and sees to it that it fails in a new process.

    Code that keeps something over from one case to the next (in a class, in a module) may fail only
    after others: then the replay file lists the cases that have to go before (as few as possible).
    """
    t0 = time.time()

    def fails(case, message, before):
        _write_replay(replay, pid, seed, case, message, before)
        cmd = [sys.executable, os.path.join(VERIF, 'check.py'), pid, '--replay', replay]
        try:
            return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150).returncode == 1
        except subprocess.TimeoutExpired:
            return None

    for f in failing:
        if f.get('alone', True):
            if t0 - started > 600 or fails(f['case'], f['message'], []) is not False:
                return [f]
            break
    for f in failing:
        if not f.get('first') or time.time() - t0 > 150 or t0 - started > 600:
            continue
        *before, case = f['first']
        message = f['message']
        if not fails(case, message, before):
            continue
        n = 1
        while n < len(before) and time.time() - t0 < 150:
            if fails(case, message, before[-n:]):
                before = before[-n:]
                break
            n *= 2
        i = 0
        size = max(1, len(before) // 2)
        while before and time.time() - t0 < 60:  # leave out what is not needed
            if i >= len(before):
                if size == 1:
                    break
                i, size = 0, size // 2
                continue
            less = before[:i] + before[i + size :]
            if fails(case, message, less):
                before = less
            else:
                i += size
        _write_replay(replay, pid, seed, case, message, before)
        return [dict(f, case=case)]
    f = failing[0]
    _write_replay(replay, pid, seed, f['case'], f['message'], [])
    if f.get('alone', True):
        return [f]  # twice in its process
    harness.append('failure did not reproduce: ' + canon(f['case'])[:4000])
    return []


def run_replay(pid, path):
    prop = _load(pid)
    with open(path) as f:
        d = json.load(f)
    for case in d.get('before', ()):
        _, msg = execute(prop, case)
        if msg:
            break
    else:
        _, msg = execute(prop, d['case'])
    if msg:
        print(f'{pid}: {msg}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print(f'{pid}: held on {path}')
    return 0
