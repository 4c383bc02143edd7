#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X]

Decides one property of /repo's working tree by generated-input search. Exit 0: held on everything
explored. Exit 1 and a VIOLATION line: broken. Anything else: the check itself failed.
"""
import argparse
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or not os.environ.get('PYTHONDONTWRITEBYTECODE'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'lib'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--out')
    ap.add_argument('--corpus', action='store_true')
    a = ap.parse_args()
    import warnings

    warnings.simplefilter('ignore')
    import logging

    logging.disable(logging.CRITICAL)
    import harness

    if a.worker:
        corpus = harness.load_corpus(a.property) if a.corpus else []
        harness.run_worker(a.property, a.tier, a.seed, a.cases, a.out, corpus)
        return 0
    if a.replay:
        return harness.run_replay(a.property, a.replay)
    return harness.run_check(a.property, a.tier, a.seed, a.workers, a.scale)


if __name__ == '__main__':
    sys.stdout.flush()
    sys.exit(main())
