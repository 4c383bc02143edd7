"""End of stream: everything buffered is delivered, then the end, never earlier."""
from deliver import delivery_cases, run_delivery

ID = 'C02'
RULE = (
    'A case is a short source script that ends in a failure of the source or a stop() at a generated moment, 1-3 '
    'consumers that wait for the end with iteration, next() or blocking reads, and a thread schedule with up to 14 '
    'preemptions. Non-trivial if at least 2 items were delivered and at least 4 thread switches happened.'
)
CASES = {'quick': 7200, 'thorough': 60000}


def strategy(tier):
    return delivery_cases(
        tier,
        regimes=('wide', 'wide', 'lossy'),
        hows=['iter', 'loops', 'next', 'blocking', 'iter_n', 'readn_blocking'],
        ends=('fault', 'fault', 'stop', 'stop_mid'),
        max_items=4,
        hot=0.7,
    )


def run(case, rec):
    run_delivery(case, rec)
