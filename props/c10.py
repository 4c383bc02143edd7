"""Faults of the source are contained: stopped, closed, data kept, restartable."""
from sessions import run_sessions, session_cases

ID = 'C10'
RULE = (
    'A case is a history of start / stop / wait / read commands over a source whose open, read, info, key or close '
    'fails at generated points (9 kinds of exceptions, also items whose key does not increase), under a thread '
    'schedule. Non-trivial if a running session failed and was examined, or a start failed.'
)
CASES = {'quick': 4500, 'thorough': 120000}


def strategy(tier):
    return session_cases(tier, focus='faults')


def run(case, rec):
    s = run_sessions(case, rec, 'faults')
    rec.nontrivial = s['faults'] > 0 or s['failed_starts'] > 0
