#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   (exit 0 held, 1 violation, 2 no answer)"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from pv import report
from pv.rules import REGISTRY


def go(pid, tier):
    mod, fn = REGISTRY[pid]
    m = importlib.import_module("pv.rules." + mod)
    return report.main(pid, tier, getattr(m, fn))


if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    if pid == "all":
        rc = 0
        for p in sorted(REGISTRY):
            r = go(p, tier)
            rc = max(rc, r)
        sys.exit(rc)
    sys.exit(go(pid, tier))
