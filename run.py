#!/usr/bin/env python
"""Entry point: `run.py <property> <quick|thorough>`."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != '/opt/venv':
    os.execv(PY, [PY, '-B'] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from rt import core  # noqa

if __name__ == '__main__':
    if sys.argv[1] == '--worker':
        _, _, prop, tier, seed, i, n, out = sys.argv
        core.worker_main(prop, tier, int(seed), int(i), int(n), out)
    else:
        sys.exit(core.main(sys.argv[1:]))
