#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]"""
import sys, os, argparse, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(20000)
import engine, core

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    engine.WORK.start()
    rep = core.Report(a.prop, a.tier, a.seed)
    try:
        import plans
        ev = plans.PLANS[a.prop](rep)
    except core.CheckError as e:
        print("CHECK-ERROR: %s" % e); return 2
    except Exception:
        traceback.print_exc(); return 2
    return core.finish(rep, ev)
if __name__ == "__main__":
    rc = main(); sys.stdout.flush(); sys.exit(rc)
