#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--repo DIR]

Decides one property of /repo's current source by static analysis; writes evidence/<property>.json.
Exit 0: no violation.  Exit 1: violation(s), one line "VIOLATION property=<id> replay=<path>" each.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from absint.driver import main

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
