"""Queries of the sorted containers against brute force."""
import sortedlib
from sortedlib import cases, run_sorted

ID = 'C16'
RULE = (
    'A case is a container (class, key function, comparable or opaque items with many equal keys, maxlen) and a list '
    'of queries mixed with some mutations, each compared with a brute force search of a list. Non-trivial if at least '
    '3 queries ran, some found something and some found nothing.'
)
CASES = {'quick': 6000, 'thorough': 250000}


def strategy(tier):
    return cases(tier, (8, 2, 0))


def big_cases(rnd, tier):
    return sortedlib.big_cases(rnd, tier, (8, 2, 0))


def run(case, rec):
    s = run_sorted(case, rec)
    rec.nontrivial = s['queries'] >= 3 and s['found'] > 0 and s['missing'] > 0
