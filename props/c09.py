"""Source lifecycle: open, reads, close in strict alternation, nothing overlaps, nothing stays open."""
from sessions import run_sessions, session_cases

ID = 'C09'
RULE = (
    'A case is a sequence of start / stop / restart / with-block / wait commands from one or two threads over a '
    'source with generated scripts, durations of open, read and close, and faults, under a thread schedule; the log of '
    'calls the source received is checked by an automaton. Non-trivial if the source was opened at least twice.'
)
CASES = {'quick': 5000, 'thorough': 120000}


def strategy(tier):
    return session_cases(tier, focus='lifecycle')


def run(case, rec):
    s = run_sessions(case, rec, 'lifecycle')
    rec.nontrivial = s['opened'] >= 2
