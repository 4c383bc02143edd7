"""Mutations of the sorted containers against a list; rejected ones change nothing."""
import sortedlib
from sortedlib import cases, run_sorted

ID = 'C17'
RULE = (
    'A case is a container (class, key function, comparable or opaque items with many equal keys, maxlen) and a list '
    'of insert / insert_right / append / remove / drop calls, valid and invalid; after each the whole content and '
    'every key lookup are compared with a list. Non-trivial if it was changed at least twice and one call was rejected.'
)
CASES = {'quick': 6000, 'thorough': 250000}


def strategy(tier):
    return cases(tier, (1, 9, 0))


def big_cases(rnd, tier):
    return sortedlib.big_cases(rnd, tier, (1, 9, 0))


def run(case, rec):
    s = run_sorted(case, rec)
    rec.nontrivial = s['changed'] >= 2 and s['rejected'] > 0
