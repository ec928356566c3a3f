#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decide one property (see DESIGN.md)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import core  # noqa: E402
from table import TABLE  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv, TABLE))
