#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: runs the check of one property."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import Run, CheckError
import checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = checks.CHECKS[a.prop]
    try:
        run = Run(a.prop, a.tier, seed)
        run.start_build()
        try:
            c["run"](run)
        finally:
            run._build[0].join()
        return run.finish(c.get("level", "model_checking"), c.get("assumptions", []))
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
