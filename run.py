#!/usr/bin/env python
"""run.py <ID> [--replay FILE] [--budget S] [--workers N] : decide one property on /repo's tree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import harness
if __name__ == "__main__":
    harness.main(sys.argv[1:])
