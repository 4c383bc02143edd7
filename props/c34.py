"""A program ends although streams are left running."""
import json
import os
import subprocess
import sys
import time

from hypothesis import strategies as st

import gen
from harness import REPO, VERIF, HarnessError, Violation

ID = 'C34'
RULE = (
    'A case is a real program (its own process, real threads and clock) with one to three streams whose sources give '
    'data, have none, wait forever, fail or exit, or hang on closing, with consumers waiting in daemon threads, that ends in one of '
    'four ways inside of or after their contexts. Non-trivial if a stream or a consumer was left running or waiting.'
)
CASES = {'quick': 320, 'thorough': 6000}
WORKERS = {'quick': 16, 'thorough': 16}
ASSUMPTIONS = ['a program of this size gets to its end within 40 seconds here']
LIMIT = 40


@st.composite
def strategy(draw, tier):
    stream = st.fixed_dictionaries(
        {
            'kind': st.sampled_from(['buffer', 'buffer', 'helper', 'stream_source']),
            'read': st.sampled_from(['none', 'none', 'slow', 'slow', 'blocks', 'sleeps', 'fails', 'exits', 'busy']),
            'close': st.sampled_from(['ok', 'ok', 'fails', 'hangs']),
            'use': st.sampled_from(['start', 'start', 'start', 'with', 'with', 'stopped', 'never']),
            'maxlen': st.sampled_from([1, 10, None, 100]),
            'auto_drop': st.sampled_from([True, True, False]),
            'consumers': st.lists(st.sampled_from(['iterate', 'blocking', 'buffer', 'idle']), max_size=3),
        }
    )
    return {
        'streams': draw(st.lists(stream, min_size=1, max_size=3)),
        'after': draw(st.sampled_from([0, 0, 0.05, 0.3])),
        'starter': draw(st.sampled_from(['main', 'main', 'thread', 'daemon'])),
        'forget': draw(st.booleans()),
        'end': draw(st.sampled_from(['return', 'return', 'exit', 'error', 'interrupt'])),
    }


def run(case, rec):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
    cmd = [sys.executable, os.path.join(VERIF, 'lib', 'endprog.py'), json.dumps(case)]
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd='/')
    t0 = time.time()
    try:
        out, err = p.communicate(timeout=LIMIT)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        at = 'at its end' if b'END' in out else 'before its end'
        raise Violation(f'the program hangs {at} ({LIMIT} s): {err.decode(errors="replace")[-300:]}')
    out, err = out.decode(), err.decode(errors='replace')
    if 'END' not in out.split('\n'):
        raise Violation(f'the program failed: {err[-800:]}')
    want = {'return': 0, 'exit': 3, 'error': 1, 'interrupt': -2}[case['end']]
    if p.returncode != want or 'Fatal Python error' in err:
        raise Violation(f'the program ended with status {p.returncode} instead of {want}: {err[-800:]}')
    lines = out.split('\n')
    for i, s in enumerate(case['streams']):
        opened, closed = lines.count(f'opened {i}'), lines.count(f'closed {i}')
        # (a stream source whose source failed is opened again for the next reader)
        if (bool(opened) if s['kind'] == 'stream_source' else opened) != (s['use'] != 'never' and (s['kind'] != 'stream_source' or s['use'] == 'with' or bool(s['consumers']))):
            raise Violation(f'stream {i} was opened {opened} times')
        if closed > opened:
            raise Violation(f'stream {i} was closed {closed} times')
    left = sum(s['use'] == 'start' or s['read'] in ('blocks', 'sleeps') for s in case['streams'])
    rec.label(case['end'], *['read_' + s['read'] for s in case['streams']], *['use_' + s['use'] for s in case['streams']])
    rec.nontrivial = left > 0 or any(set(s['consumers']) - {'idle'} for s in case['streams'])
