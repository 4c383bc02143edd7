"""head(), tail() and the cursor against the reference model."""
import gen
from hypothesis import strategies as st
from streams import run_sequential

ID = 'C05'
RULE = (
    'A case is a generated sequential history mixing head, tail, cursor assignment and deletion with reads; after '
    'every step last_item/last_key of every reader are compared with the model. Non-trivial if at least 4 calls '
    'were compared, items were returned and some cursor moved.'
)
CASES = {'quick': 3600, 'thorough': 120000}


def strategy(tier):
    ops = gen.weighted(
        (5, gen.tail_ops),
        (3, gen.head_ops),
        (3, gen.seek_ops),
        (2, gen.del_ops),
        (2, gen.read_ops()),
        (1, gen.next_ops),
        (1, gen.iter_ops),
        (1, gen.range_ops(st.integers(-4, 40))),
    )
    return gen.seq_cases(ops, tier=tier)


def big_cases(rnd, tier):
    return gen.big_seq_cases(rnd, tier, ['tail', 'head', 'seek', 'del', 'read', 'next', 'iter', 'range'])


def run(case, rec):
    s = run_sequential(case, rec, check_contents=False)
    rec.nontrivial = s['ops'] >= 4 and s['values'] > 0 and s['moved'] > 0
    for k, v in s.items():
        if v:
            rec.label(k)
