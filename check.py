#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]   (see DESIGN.md)"""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    mod = importlib.import_module("p_" + a.property.lower())
    c = core.Checker(a.property, a.tier, a.seed)
    try:
        mod.run(c)
    except core.CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        return 3
    return c.finish()

if __name__ == "__main__":
    sys.exit(main())
