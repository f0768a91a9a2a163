#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current source."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stl"))
import base                                     # noqa: E402
from rules import TABLE                         # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    rule, title = TABLE[pid]
    sys.exit(base.main(pid, rule, title))
