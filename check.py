#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: run one property's check (see DESIGN.md)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import report  # noqa: E402

if __name__ == '__main__':
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    mod = importlib.import_module('checks.' + pid.lower())
    sys.exit(report.main(pid, mod.check))
