"""Complete, ordered, duplicate-free delivery to every reader under any schedule."""
from deliver import delivery_cases, run_delivery

ID = 'C01'
RULE = (
    'A case is a source script (items, pauses), a window size, 1-3 consumers (ways to read, reader defaults, start '
    'delays) and a thread schedule with up to 14 preemptions at source lines or lock operations of the code under '
    'test. Non-trivial if at least 2 items were delivered and at least 4 thread switches happened.'
)
CASES = {'quick': 3600, 'thorough': 60000}


def strategy(tier):
    return delivery_cases(tier)


def run(case, rec):
    run_delivery(case, rec)
