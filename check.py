#!/usr/bin/env python3
"""Runs the check of one property: check.py <id> [quick|thorough] | check.py <id> --replay FILE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from pbt import engine                                   # noqa: E402
from pbt.props import REGISTRY                           # noqa: E402

if __name__ == '__main__':
    if len(sys.argv) < 2 or sys.argv[1] not in REGISTRY:
        sys.stderr.write('usage: check.py %s [quick|thorough|--replay FILE]\n' % '|'.join(REGISTRY))
        sys.exit(2)
    sys.exit(engine.main(REGISTRY[sys.argv[1]](), sys.argv[2:]))
