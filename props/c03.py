"""read() / next() semantics against the reference model."""
import gen
from streams import run_sequential

ID = 'C03'
RULE = (
    'A case is a generated sequential history: key/item types, window size, reader defaults and a list of '
    'feed / make-reader / read steps; it is non-trivial if at least 3 reads (some of them blocking) were compared with the model and '
    'at least one of them returned items and one of them hit an option that changes the result '
    '(nothing new, too few items, several items).'
)
CASES = {'quick': 3600, 'thorough': 120000}


def strategy(tier):
    ops = gen.weighted(
        (8, gen.read_ops(blocking=True)), (3, gen.next_ops), (1, gen.dnext_ops), (1, gen.iter_ops), (1, gen.seek_ops), (1, gen.del_ops), (1, gen.head_ops)
    )
    return gen.seq_cases(ops, tier=tier)


def big_cases(rnd, tier):
    return gen.big_seq_cases(rnd, tier, ['read', 'read', 'read', 'next', 'dnext', 'iter', 'seek', 'del', 'head'])


def run(case, rec):
    s = run_sequential(case, rec, check_contents=False)
    rec.nontrivial = s['ops'] >= 3 and s['values'] > 0 and (s['raised'] + s['none'] + s['lists']) > 0
    for k, v in s.items():
        if v:
            rec.label(k)
