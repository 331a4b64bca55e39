#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's current sources."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from analysis import report

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    sys.exit(report.main(pid, tier, importlib.import_module("analysis." + pid.lower()).run))
