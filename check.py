#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree (tier from VERIF_TIER)"""
import sys, os, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
import runner
if __name__ == '__main__':
    pid = sys.argv[1]
    sys.exit(runner.main(pid, importlib.import_module('props.' + pid)))
