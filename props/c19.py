"""A stream source is open while it has open readers, and can be reopened."""
from srcstream import lifecycle_cases, run_lifecycle

ID = 'C19'
RULE = (
    'A case is a history of opening readers with options, closing them in five ways (repeatedly too), bursts of data and '
    'reads; after every step the log of source calls, the running state and every result are compared with a model '
    'counting open readers. Non-trivial if there were at least 2 sessions or a reader was closed again, and a read '
    'returned items.'
)
CASES = {'quick': 8000, 'thorough': 80000}


def strategy(tier):
    return lifecycle_cases(tier)


def run(case, rec):
    s = run_lifecycle(case, rec)
    rec.nontrivial = (s['sessions'] > 1 or s['recloses'] > 0) and s['values'] > 0
