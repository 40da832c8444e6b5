#!/usr/bin/env python3
"""run.py --property Cxx [--tier quick|thorough]: decide one property on /repo's current sources."""
import argparse, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from frontend import Broken, Budget
    import rules, engine
    from check import Ctx
    engine.LIMIT[0] = time.time() + float(os.environ.get("LSQ_LIMIT", 720))
    try:
        ctx = Ctx(a.property, a.tier)
        try:
            text = rules.RULES[a.property](ctx)
        except Budget as b:
            # what was explored until then counts; the evidence says that it is not everything
            ctx.cov["incomplete"] = 1
            text = "the time for this check ran out (%s): only what was looked at until then is covered" % b
            print("INCOMPLETE: " + text)
        return ctx.finish(text)
    except Broken as b:
        print("no verdict: %s" % b)
        return 2
    except Exception:
        traceback.print_exc()
        print("no verdict: the analysis failed")
        return 2

if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    sys.exit(main())
