#!/usr/bin/env python3
"""python3 run.py <property> [--thorough]   decide one property on /repo's working tree"""
import importlib, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
import check

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    m = importlib.import_module(pid.lower())
    sys.exit(check.main(pid, m.run, tier, int(os.environ.get("VERIF_SEED", "1") or 1), getattr(m, "LEVEL", "model_checking")))
