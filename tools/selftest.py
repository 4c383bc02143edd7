#!/usr/bin/env python3
"""setup_cmd: nothing to build; checks that the tools and the package are there, offline."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
import hypothesis

with open(os.path.join(HERE, 'MANIFEST.json')) as f:
    ids = [c['property'] for c in json.load(f)['checks']]
for i in ids:
    __import__(f'props.{i.lower()}')
print(f'hypothesis {hypothesis.__version__}, {len(ids)} checks')
