#!/usr/bin/env python3-vt
"""check.py ID: decides one property on the current tree of /repo. See /verif/DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import rtcheck, checks

if __name__ == "__main__":
    sys.exit(rtcheck.main(checks.CHECKS, checks.STUB, checks.NEEDS))
