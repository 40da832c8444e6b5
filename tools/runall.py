#!/usr/bin/env python3
"""runall.py [Cxx ...]: all rules in one process, sharing the analysed programs (for development; LSQ_REPO selects the tree)"""
import os, sys, traceback
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lib")); sys.setrecursionlimit(100000)
import check, rules
from frontend import Broken
cache = {}
orig = check.Ctx.load
def load(self, **kw):
    k = repr(sorted((a, getattr(b, "__qualname__", b)) for a, b in kw.items()))
    if k not in cache:
        cache[k] = orig(self, **kw), self.prog
    self.e, self.prog = cache[k]; self.summarised = []
    return self.e
check.Ctx.load = load
import io, contextlib
res = {}
os.environ["LSQ_NOEV"] = "1"
for p in sys.argv[1:] or sorted(rules.RULES):
    c = check.Ctx(p, "quick")
    o = io.StringIO()
    try:
        with contextlib.redirect_stdout(o):
            r = c.finish(rules.RULES[p](c))
    except Broken as b:
        r = 2; o.write(str(b) + "\n")
    except Exception:
        r = 2; o.write(traceback.format_exc())
    res[p] = r
    if r or "KNOWN" in o.getvalue():
        t = [l[:260] for l in o.getvalue().splitlines() if not l.startswith("    ") or r == 2]
        print(p, r, "\n".join(t[-6:]))
print(" ".join("%s:%d" % x for x in res.items()))
