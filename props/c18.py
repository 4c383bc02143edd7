"""Copies, pickles, re-keying, resizing and clearing of the sorted containers."""
import sortedlib
from sortedlib import cases, run_sorted

ID = 'C18'
RULE = (
    'A case is a container and a list of copy / pickle / key change / maxlen change / clear operations mixed with '
    'mutations and queries; the result and all copies left behind are compared with lists after every step. '
    'Non-trivial if at least 2 such operations and one mutation happened.'
)
CASES = {'quick': 6000, 'thorough': 250000}


def strategy(tier):
    return cases(tier, (2, 4, 6))


def big_cases(rnd, tier):
    return sortedlib.big_cases(rnd, tier, (2, 4, 6))


def run(case, rec):
    s = run_sorted(case, rec)
    rec.nontrivial = s['derived'] >= 2 and s['changed'] > 0
