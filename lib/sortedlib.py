"""Sorted containers against a plain list that is searched by brute force."""
import copy
import functools
import operator
import pickle

from hypothesis import strategies as st

import gen
import vworld as V
from harness import HarnessError, Violation


# key functions have to be importable to be pickled
def key_first(item):
    return item[0]


def key_second(item):
    return item[1]


def key_neg(item):
    return -item[0]


def key_pair(item):
    return (item[1], item[0])


def key_text(item):
    return f'{item[0] + 500:05d}'


class A:
    @staticmethod
    def key(item):
        return item[0]


class B:
    @staticmethod
    def key(item):
        return (item[1], -item[0])


def key_by(i, item):
    return item[i]


KEYFUNCS = {
    # two functions of the same name, two of the same type
    'a_key': A.key,
    'b_key': B.key,
    'by0': functools.partial(key_by, 0),
    'by1': functools.partial(key_by, 1),
    'none': None,
    'first': key_first,
    'second': key_second,
    'neg': key_neg,
    'pair': key_pair,
    'text': key_text,
    'getter': operator.itemgetter(0),
}


class Item(tuple):
    """A pair that cannot be ordered (only its keys can)."""

    def __lt__(self, other):
        raise TypeError('items are not comparable')

    __gt__ = __le__ = __ge__ = __lt__


def mk_item(pair, kind):
    pair = tuple(pair)
    return Item(pair) if kind == 'opaque' else pair


def ident(x):
    return x


def keyf(name):
    return KEYFUNCS[name] or ident


class Model:
    def __init__(self, items, key, maxlen):
        self.key = key
        self.maxlen = maxlen
        self.items = sorted(items, key=keyf(key))
        self._trim()

    def _trim(self):
        if self.maxlen is not None:
            self.items = self.items[max(0, len(self.items) - self.maxlen) :]

    def keys(self):
        return [keyf(self.key)(x) for x in self.items]

    def clone(self):
        m = Model([], self.key, self.maxlen)
        m.items = list(self.items)
        return m


pairs = st.tuples(gen.weighted((3, st.integers(-2, 6)), (1, st.integers(-50, 50))), st.integers(0, 2)).map(list)


@st.composite
def cases(draw, tier, weights):
    cls = draw(st.sampled_from(['SortedCollection', 'SortedDeque', 'SortedDeque']))
    kind = draw(st.sampled_from(['tuple', 'opaque']))
    key = draw(st.sampled_from([k for k in KEYFUNCS if not (k == 'none' and kind == 'opaque')]))
    rekeys = [k for k in KEYFUNCS if not (k == 'none' and kind == 'opaque')]
    size = gen.weighted((4, st.integers(0, 8)), (2, st.integers(0, 25)), (1, st.integers(60, 120 if tier == 'quick' else 900)))
    n = draw(size)
    rnd = draw(st.randoms(use_true_random=False)) if n > 25 else None
    if rnd:
        init = [[rnd.randint(-n, n), rnd.randint(0, 2)] for _ in range(n)]
    else:
        init = draw(st.lists(pairs, min_size=n, max_size=n))
    maxlen = None
    if cls == 'SortedDeque':
        maxlen = draw(gen.weighted((3, st.none()), (3, st.integers(1, 8)), (1, st.integers(0, 100))))
    probe = gen.weighted((4, st.integers(0, 200).map(lambda i: ['at', i])), (4, pairs.map(lambda p: ['pair', p])))
    q = gen.weighted(
        (6, st.tuples(st.sampled_from(['find', 'find_le', 'find_lt', 'find_ge', 'find_gt']), probe).map(list)),
        (2, st.tuples(st.just('find_last_gt'), probe).map(list)),
        (4, st.tuples(st.sampled_from(['index', 'count', 'contains']), probe).map(list)),
        (4, st.tuples(st.just('range'), probe, probe, st.sampled_from([None, 1, 2, 3])).map(list)),
        (
            2,
            st.tuples(
                st.just('by_index'), st.integers(0, 12), st.integers(0, 20), st.sampled_from([None, 1, 2, 3])
            ).map(list),
        ),
        (2, st.tuples(st.just('get'), st.integers(-12, 12)).map(list)),
        (1, st.tuples(st.just('slice'), st.integers(-12, 12), st.integers(-12, 12)).map(list)),
        (1, st.sampled_from([['all'], ['reversed'], ['len']])),
    )
    m = gen.weighted(
        (4, st.tuples(st.sampled_from(['insert', 'insert_right', 'append']), pairs).map(list)),
        (4, st.tuples(st.just('append_next'), st.integers(0, 3)).map(list)),
        (3, st.tuples(st.just('remove'), probe).map(list)),
        (2, st.tuples(st.just('drop'), st.integers(1, 4)).map(list)),
        (2, st.sampled_from([['bad_append'], ['bad_insert'], ['bad_insert_right'], ['bad_remove'], ['drop1'], ['odd_append']])),
    )
    t = gen.weighted(
        (3, st.sampled_from([['copy'], ['copy_keep'], ['copy_module'], ['deepcopy']])),
        (3, st.just(['pickle'])),
        (3, st.tuples(st.just('setkey'), st.sampled_from(rekeys)).map(list)),
        (1, st.just(['delkey'])),
        (2, st.tuples(st.just('setmaxlen'), gen.weighted((3, st.integers(1, 10)), (1, st.sampled_from([None, None, 0, 0, 64])))).map(list)),
        (1, st.sampled_from([['clear'], ['delmaxlen'], ['jdict'], ['same_key']])),
    )
    ops = draw(
        st.lists(
            gen.weighted((weights[0], q), (weights[1], m), (weights[2], t)),
            min_size=3,
            max_size=16 if tier == 'quick' else 50,
        )
    )
    return {'cls': cls, 'kind': kind, 'key': key, 'init': init, 'maxlen': maxlen, 'ops': ops, 'iter': draw(st.booleans()), 'sub': draw(st.integers(0, 4)) == 3}


def _subclass(cls):
    name = 'Own' + cls.__name__
    known = globals().get(name)
    if known is None or known.__bases__ != (cls,):
        # (where pickle finds it)
        known = globals()[name] = type(name, (cls,), {'__module__': __name__, '__doc__': 'a class of a user'})
    return known


def big_cases(rnd, tier, weights):
    """Containers of hundreds or thousands of items, sizes around round numbers."""
    out = []
    for i in range(3 if tier == 'quick' else 15):
        cls = rnd.choice(['SortedCollection', 'SortedDeque', 'SortedDeque'])
        kind = rnd.choice(['tuple', 'opaque'])
        names = [k for k in KEYFUNCS if not (k == 'none' and kind == 'opaque')]
        n = rnd.choice(gen.EDGES) + rnd.choice([-1, 0, 1, 5])
        spread = rnd.choice([3, n // 10 + 1, n, 5 * n])
        init = [[rnd.randint(-spread, spread), rnd.randint(0, 2)] for _ in range(n)]
        maxlen = rnd.choice([None, None, n, n + 5, n // 2, 1000]) if cls == 'SortedDeque' else None

        def probe():
            return ['at', rnd.randrange(n)] if rnd.random() < 0.6 else ['pair', [rnd.randint(-spread - 2, spread + 2), rnd.randint(0, 2)]]

        def pair():
            return [rnd.randint(-spread - 2, spread + 2), rnd.randint(0, 2)]

        def op():
            k = rnd.choices('qmt', weights)[0]
            if k == 'q':
                return rnd.choice([
                    [rnd.choice(['find', 'find_le', 'find_lt', 'find_ge', 'find_gt', 'find_last_gt']), probe()],
                    [rnd.choice(['index', 'count', 'contains']), probe()],
                    ['range', probe(), probe(), rnd.choice([None, 1, 2, 3, 100])],
                    ['range', ['pair', [-spread - 2, 0]], ['pair', [spread + 2, 2]], rnd.choice([None, 1, 2, 3])],
                    ['by_index', rnd.randrange(n), rnd.randrange(n + 3), rnd.choice([None, 1, 2, 3, 100])],
                    ['get', rnd.randint(-n - 1, n)],
                    ['slice', rnd.randint(-n, n), rnd.randint(-n, n)],
                    [rnd.choice(['all', 'reversed', 'len'])],
                ])
            if k == 'm':
                return rnd.choice([
                    [rnd.choice(['insert', 'insert_right', 'append']), pair()],
                    ['append_next', rnd.randint(0, 3)],
                    ['append_next', 1],
                    ['remove', probe()],
                    ['drop', rnd.choice([1, 2, n // 2, n - 1])],
                    [rnd.choice(['bad_append', 'bad_insert', 'bad_insert_right', 'bad_remove', 'drop1'])],
                ])
            return rnd.choice([
                [rnd.choice(['copy', 'copy_keep', 'copy_module', 'deepcopy', 'pickle', 'jdict', 'same_key'])],
                ['setkey', rnd.choice(names)],
                ['setmaxlen', rnd.choice([None, n, n - 1, n + 1, n // 2, 1000])],
            ])

        out.append({
            'cls': cls, 'kind': kind, 'key': rnd.choice(names), 'init': init, 'maxlen': maxlen,
            'ops': [op() for _ in range(10)], 'iter': rnd.random() < 0.5,
        })
    return out


def run_sorted(case, rec):
    from stream2py.utility.sorted_collection import SortedCollection
    from stream2py.utility.sorted_deque import SortedDeque

    deque_ = case['cls'] == 'SortedDeque'
    if case.get('sub'):
        SortedCollection, SortedDeque = _subclass(SortedCollection), _subclass(SortedDeque)
    kind = case['kind']
    stats = dict(queries=0, found=0, missing=0, changed=0, rejected=0, derived=0, ties=0, dropped=0)
    init = [mk_item(p, kind) for p in case['init']]
    arg = iter(init) if case['iter'] else init
    if deque_:
        d = SortedDeque(arg, KEYFUNCS[case['key']], case['maxlen'])
    else:
        d = SortedCollection(arg, key=KEYFUNCS[case['key']])
    m = Model(init, case['key'], case['maxlen'])
    others = []  # (container, model) that nobody touches any more

    def show(v):
        return repr(v)[:300]

    def compare(what, d=d, m=m):
        got = list(d)
        if len(got) != len(d) or len(got) != len(m.items) or any(
            type(a) is not type(b) or tuple(a) != tuple(b) for a, b in zip(got, m.items)
        ):
            raise Violation(f'{what}: content {show(got)}, expected {show(m.items)}')
        # the searchable keys have to be in step with the items
        ks = m.keys()
        for i, k in enumerate(ks):
            if i and ks[i - 1] == k:
                continue
            try:
                f = d.find(k)
            except Exception as e:
                raise Violation(f'{what}: find({k!r}) raised {e!r} although {m.items[i]!r} is there')
            if tuple(f) != tuple(m.items[i]):
                raise Violation(f'{what}: find({k!r}) returned {f!r}, expected {m.items[i]!r}')
        if deque_ and d.maxlen != m.maxlen:
            raise Violation(f'{what}: maxlen is {d.maxlen}, expected {m.maxlen}')

    def item_of(probe):
        if probe[0] == 'at' and m.items:
            x = tuple(m.items[probe[1] % len(m.items)])
        elif probe[0] == 'at':
            x = (1, 1)
        else:
            x = tuple(probe[1])
        return mk_item(x, kind)

    def attempt(fn, *a):
        try:
            return ('val', fn(*a))
        except (ValueError, IndexError, TypeError, KeyError, AttributeError) as e:
            return ('raise', type(e).__name__, str(e)[:100])

    def query(op):
        name = op[0]
        ks = m.keys()
        k = keyf(m.key)
        if name in ('find', 'find_le', 'find_lt', 'find_ge', 'find_gt', 'find_last_gt'):
            if name == 'find_last_gt' and not deque_:
                return
            key = k(item_of(op[1]))
            rel = {
                'find': (operator.eq, 0),
                'find_le': (operator.le, -1),
                'find_lt': (operator.lt, -1),
                'find_ge': (operator.ge, 0),
                'find_gt': (operator.gt, 0),
                'find_last_gt': (operator.gt, -1),
            }[name]
            hits = [x for x, kk in zip(m.items, ks) if rel[0](kk, key)]
            exp = ('val', hits[rel[1]]) if hits else ('raise', 'ValueError')
            act = attempt(getattr(d, name), key)
            what = f'{name}({key!r})'
        elif name in ('index', 'count', 'contains'):
            x = item_of(op[1])
            at = [i for i, y in enumerate(m.items) if y == x]
            if name == 'index':
                exp = ('val', at[0]) if at else ('raise', 'ValueError')
                act = attempt(d.index, x)
            elif name == 'count':
                exp, act = ('val', len(at)), attempt(d.count, x)
            else:
                exp, act = ('val', bool(at)), attempt(d.__contains__, x)
            what = f'{name}({x!r})'
        elif name == 'range':
            if not deque_:
                return
            a, b = k(item_of(op[1])), k(item_of(op[2]))
            exp = ('val', [x for x, kk in zip(m.items, ks) if a <= kk <= b][:: op[3] or 1])
            act = attempt(d.range, a, b, op[3]) if op[3] else attempt(d.range, a, b)
            what = f'range({a!r}, {b!r}, {op[3]})'
        elif name == 'by_index':
            if not deque_:
                return
            exp = ('val', m.items[op[1] : op[2] : op[3]])
            act = attempt(d.range_by_index, op[1], op[2], op[3])
            what = f'range_by_index{tuple(op[1:])}'
        elif name == 'get':
            ok = -len(m.items) <= op[1] < len(m.items)
            exp = ('val', m.items[op[1]]) if ok else ('raise', 'IndexError')
            act = attempt(d.__getitem__, op[1])
            what = f'[{op[1]}]'
        elif name == 'slice':
            if deque_:  # deques have no slices
                return
            exp = ('val', m.items[op[1] : op[2]])
            act = attempt(d.__getitem__, slice(op[1], op[2]))
            what = f'[{op[1]}:{op[2]}]'
        elif name == 'all':
            exp, act, what = ('val', m.items), attempt(list, d), 'list()'
        elif name == 'reversed':
            exp, act, what = ('val', m.items[::-1]), attempt(lambda: list(reversed(d))), 'reversed()'
        elif name == 'len':
            exp, act, what = ('val', len(m.items)), attempt(len, d), 'len()'
        else:
            return False
        stats['queries'] += 1
        stats['found' if exp[0] == 'val' and exp[1] not in ([], 0, False) else 'missing'] += 1
        if act[:2] != exp[:2]:
            raise Violation(f'{what} on {show(m.items)} (key {m.key}) gave {show(act)}, expected {show(exp)}')
        return True

    def mutate(op):
        name = op[0]
        ks = m.keys()
        k = keyf(m.key)
        full = deque_ and m.maxlen is not None and len(m.items) >= m.maxlen
        if name in ('insert', 'insert_right'):
            x = mk_item(op[1], kind)
            act = attempt(getattr(d, name), x)
            if full:  # a full window cannot take an item in the middle: rejected, or the oldest one goes
                if act[0] == 'raise':
                    stats['rejected'] += 1
                    return
            if act != ('val', None):
                raise Violation(f'{name}({x!r}) on {show(m.items)} gave {act}')
            key = k(x)
            i = sum(kk < key for kk in ks) if name == 'insert' else sum(kk <= key for kk in ks)
            m.items.insert(i, x)
            m._trim()
            stats['changed'] += 1
            stats['ties'] += key in ks
        elif name in ('append', 'append_next'):
            if not deque_:
                return
            if name == 'append_next':
                # something that goes to the end for the current key function, or just not
                last = max((p[0] for p in m.items), default=0)
                low = min((p[0] for p in m.items), default=0)
                x = {'neg': (low - op[1], 1), 'second': (0, (m.items[-1][1] if m.items else 0) + op[1]),
                     'by1': (0, (m.items[-1][1] if m.items else 0) + op[1]),
                     'b_key': (last, (m.items[-1][1] if m.items else 0) + op[1]),
                     'pair': (last, (m.items[-1][1] if m.items else 0) + op[1])}.get(m.key, (last + op[1], 1))
                x = mk_item(x, kind)
            else:
                x = mk_item(op[1], kind)
            act = attempt(d.append, x)
            if ks and not k(x) > ks[-1]:
                if act[0] != 'raise' or act[1] != 'ValueError':
                    raise Violation(f'append({x!r}) behind {m.items[-1]!r} (key {m.key}) gave {act}, not ValueError')
                stats['rejected'] += 1
                return
            if act != ('val', None):
                raise Violation(f'append({x!r}) on {show(m.items)} (key {m.key}) gave {act}')
            m.items.append(x)
            stats['dropped'] += full
            m._trim()
            stats['changed'] += 1
        elif name == 'remove':
            x = item_of(op[1])
            at = [i for i, y in enumerate(m.items) if y == x]
            act = attempt(d.remove, x)
            if at:
                if act != ('val', None):
                    raise Violation(f'remove({x!r}) on {show(m.items)} gave {act}')
                del m.items[at[0]]
                stats['changed'] += 1
            else:
                if act[0] != 'raise' or act[1] != 'ValueError':
                    raise Violation(f'remove({x!r}) on {show(m.items)} gave {act}, not ValueError')
                stats['rejected'] += 1
        elif name in ('drop', 'drop1'):
            if not deque_:
                return
            n = 1 if name == 'drop1' else min(op[1], len(m.items))
            if not m.items:
                return
            act = attempt(d.drop) if name == 'drop1' else attempt(d.drop, n)
            if act != ('val', None):
                raise Violation(f'drop({n}) gave {act}')
            m.items = m.items[n:]
            stats['changed'] += 1
        elif name == 'odd_append':
            if not m.items or not deque_:
                return
            act = attempt(d.append, (float('nan'), float('nan')))  # not greater than anything
            if act[0] != 'raise':
                raise Violation(f'append of an item with the key NaN to {show(m.items)} was accepted')
            stats['rejected'] += 1
        elif name.startswith('bad_'):
            if not m.items:
                return
            fn = {'bad_append': 'append', 'bad_insert': 'insert', 'bad_insert_right': 'insert_right', 'bad_remove': 'remove'}[name]
            if fn == 'append' and not deque_:
                return
            bad = (None, None) if m.key == 'none' else object()  # no usable key
            act = attempt(getattr(d, fn), bad)
            if act[0] != 'raise':
                raise Violation(f'{fn}({bad!r}) was accepted')
            stats['rejected'] += 1
        else:
            return False
        return True

    def derive(op):
        nonlocal d, m
        name = op[0]
        if name in ('copy', 'copy_keep'):
            act = attempt(d.copy)
            if act[0] != 'val' or type(act[1]) is not type(d):
                raise Violation(f'copy() gave {act}')
            if act[1] is d:
                raise Violation(f'copy() of {show(m.items)} is the container itself')
            if name == 'copy':
                others.append((d, m.clone()))
                d = act[1]
            else:
                others.append((act[1], m.clone()))
        elif name in ('copy_module', 'deepcopy'):
            act = attempt(copy.copy if name == 'copy_module' else copy.deepcopy, d)
            if act[0] != 'val' or type(act[1]) is not type(d):
                raise Violation(f'{name} of the copy module gave {act}')
            if act[1] is d:
                raise Violation(f'{name} of {show(m.items)} is the container itself')
            others.append((d, m.clone()))
            d = act[1]
        elif name == 'pickle':
            try:
                e = pickle.loads(pickle.dumps(d))
            except Exception as err:
                raise Violation(f'a {case["cls"]} with key {m.key} cannot be pickled: {err!r}')
            if type(e) is not type(d):
                raise Violation(f'pickle gave a {type(e)}')
            if e is d:
                raise Violation(f'pickle gave the container itself')
            others.append((d, m.clone()))
            d = e
        elif name == 'setkey':
            d.key = KEYFUNCS[op[1]] or ident
            m.key = op[1]
            m.items = sorted(m.items, key=keyf(op[1]))
        elif name == 'same_key':
            d.key = d.key
        elif name == 'delkey':
            if kind == 'opaque':
                return
            del d.key
            m.key = 'none'
            m.items = sorted(m.items)
        elif name in ('setmaxlen', 'delmaxlen'):
            if not deque_:
                return
            if name == 'setmaxlen':
                d.maxlen = op[1]
                m.maxlen = op[1]
            else:
                del d.maxlen
                m.maxlen = None
            m._trim()
        elif name == 'clear':
            d.clear()
            m.items = []
        elif name == 'jdict':
            if not deque_:
                return
            others.append((d, m.clone()))
            d = type(d).from_jdict(d.to_jdict())
        else:
            raise HarnessError(name)
        stats['derived'] += 1
        return True

    compare('construction', d, m)
    for i, op in enumerate(case['ops']):
        done = query(op)
        if done is False:
            done = mutate(op)
        if done is False:
            derive(op)
        compare(f'after op {i} {op}', d, m)
        for o, om in others[-3:]:
            compare(f'an untouched copy after op {i} {op}', o, om)
    ks = m.keys()
    stats['ties'] += len(ks) - len(set(ks))
    rec.label(case['cls'], *[s for s, v in stats.items() if v])
    return stats
