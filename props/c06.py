"""Readers are independent of each other and never change the buffer."""
from hypothesis import strategies as st

import gen
from streams import run_sequential

ID = 'C06'
RULE = (
    'A case is a generated sequential history over 1-4 readers with different defaults; after every call the '
    'cursors of all readers and the buffer content are compared with one model per reader, and returned lists are '
    'mutated by the caller. Non-trivial if at least 2 readers exist, at least 4 calls were compared, and a cursor moved.'
)
CASES = {'quick': 1600, 'thorough': 60000}


def strategy(tier):
    ops = gen.weighted(
        (5, gen.read_ops()),
        (3, gen.next_ops),
        (1, gen.iter_ops),
        (3, gen.range_ops(st.integers(-4, 40))),
        (2, gen.tail_ops),
        (1, gen.head_ops),
        (1, gen.seek_ops),
        (1, gen.del_ops),
        (1, st.sampled_from(['close', 'exit', 'with']).map(lambda h: ['close', {'how': h}])),
    )
    # a reader is closed, a new one is made and used
    fresh = st.tuples(
        st.integers(0, 3), st.sampled_from(['close', 'exit', 'with']), gen.weighted((1, st.just({})), (1, gen.reader_cfgs())),
        st.lists(ops, min_size=1, max_size=4),
    ).map(
        lambda t: [['op', t[0], ['close', {'how': t[1]}]], ['mk', t[2]]] + [['op', -1, o] for o in t[3]]
    )
    return st.tuples(
        gen.seq_cases(ops, tier=tier), gen.reader_cfgs(), gen.reader_cfgs(), gen.bools, gen.weighted((2, st.just([])), (1, fresh))
    ).map(
        lambda t: dict(
            t[0],
            every=True,
            steps=[['mk', t[1]]] + ([['mk', t[2]]] if t[3] else []) + t[0]['steps'] + t[4],
        )
    )


def big_cases(rnd, tier):
    return gen.big_seq_cases(rnd, tier, ['read', 'range', 'iter', 'tail', 'head', 'del'])


def run(case, rec):
    s = run_sequential(case, rec)
    rec.nontrivial = s['ops'] >= 4 and s['moved'] > 0 and s['readers'] > 1
    for k, v in s.items():
        if v:
            rec.label(k)
