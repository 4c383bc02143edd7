"""range() semantics against the reference model."""
from hypothesis import strategies as st

import gen
from streams import run_sequential

ID = 'C04'
RULE = (
    'A case is a generated sequential history (key/item types, window size, reader defaults, steps) in which '
    'most steps are range() calls with bounds on, between and beyond the keys in the window; non-trivial if at '
    'least 3 calls were compared with the model, one returned items, and one returned nothing or raised.'
)
CASES = {'quick': 3600, 'thorough': 120000}


def strategy(tier):
    positions = gen.weighted((6, st.integers(-8, 70)), (1, st.integers(-1000, 3000)))
    ops = gen.weighted(
        (10, gen.range_ops(positions)), (2, gen.read_ops()), (1, gen.seek_ops), (1, gen.del_ops), (1, gen.tail_ops)
    )
    return gen.seq_cases(ops, tier=tier)


def big_cases(rnd, tier):
    return gen.big_seq_cases(rnd, tier, ['range', 'range', 'range', 'read', 'seek', 'del', 'tail'])


def run(case, rec):
    s = run_sequential(case, rec, check_contents=False)
    rec.nontrivial = s['ops'] >= 3 and s['lists'] > 0 and (s['raised'] + s['none']) > 0
    for k, v in s.items():
        if v:
            rec.label(k)
