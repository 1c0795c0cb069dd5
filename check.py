#!/usr/bin/env python3
"""Run the check of one property:  check.py <ID> [--replay FILE] [--tier T] [--seed N]

Exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything
else: the check could not decide (inconclusive).
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib.driver import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
