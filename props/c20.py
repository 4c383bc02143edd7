"""Settings of a stream source reach its buffer and readers."""
from srcstream import config_cases, run_config

ID = 'C20'
RULE = (
    'A case is a combination of buffer settings, reader options, reader class and pause of the source, a script of '
    'data and gaps, and one or two sessions of readers; window content, pace of source calls on the virtual clock and '
    'results of calls are compared with the model. Non-trivial if a setting was given, reads returned items, and the '
    'source was waited for or the window was exceeded.'
)
CASES = {'quick': 3000, 'thorough': 80000}


def strategy(tier):
    return config_cases(tier)


def run(case, rec):
    s = run_config(case, rec)
    rec.nontrivial = bool(case['configs']) and s['values'] > 0 and (s['waits'] > 0 or s['dropped'] > 0 or s['full'] > 0)
