#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] : decide one property on /repo's current source"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa import report
from sa.facts import Broken


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("rules." + pid.lower())
    try:
        return report.run(pid, mod, tier)
    except Broken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 3


if __name__ == "__main__":
    sys.exit(main())
