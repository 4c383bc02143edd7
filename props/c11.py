"""Sessions are isolated: a restart never mixes old and new data, readers or info."""
from sessions import run_sessions, session_cases

ID = 'C11'
RULE = (
    'A case is a history of several sessions that produce equal keys but distinguishable items, with readers made in '
    'each and used in later ones, under a thread schedule. Non-trivial if a reader of an earlier session read items '
    'after a restart.'
)
CASES = {'quick': 5000, 'thorough': 120000}


def strategy(tier):
    return session_cases(tier, focus='isolation')


def run(case, rec):
    s = run_sessions(case, rec, 'isolation')
    rec.nontrivial = s['stale'] > 0
