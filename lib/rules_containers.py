"""C35: the hash table and the stack hold exactly what was put into them."""
from rules_handles import *

class Boxes(Models):
    phase = 0
    nofail = property(lambda self: self.phase == 0, lambda self, v: None)
    ok = property(lambda self: self.phase == 0, lambda self, v: None)
    entries = Extraction.entries; log = Extraction.log

def _see(name):
    def f(self, e, st, ins, args):
        self.log(st, name, *[st.norm(a) for a in args])
    return f
for _n in ("made", "put", "took", "seen", "also", "size", "dropped"):
    setattr(Boxes, "x_lsq_" + _n, _see(_n))

class BoxLab(HandleLab):
    def __init__(self, ctx):
        self.ctx = ctx; self.m = Boxes(); self.m.L = self
        self.e = ctx.load(models=self.m, clients=("containers.c",), peel=60, MAXB=4000, MAXX=4000, eager=False, markfacts=True, inline=8)
        self.wrap(); self.nq = 0; self.skipped = []; self.done = []; self.statics = ()

S32 = lambda n: n - (1 << 32) if n >= 1 << 31 else n
HASH = {"made": "sqfs_hash_init", "put": "sqfs_hash_add", "took": "sqfs_hash_remove", "seen": "sqfs_hash_get", "size": "sqfs_hash_add"}
STACK = {"made": "sqfs_stack_create", "put": "sqfs_stack_push", "took": "sqfs_stack_pop", "seen": "sqfs_stack_at", "size": "sqfs_stack_size"}

def contents(L, fn, phase):
    """replays what a program did and compares what it was shown"""
    ctx = L.ctx; m = L.m
    m.phase = phase; hashing = "hash" in fn or "wide" in fn; names = HASH if hashing else STACK
    noun = "table" if hashing else "stack"
    for x in L.query(fn, None, opaque=()):
        s = state_of(x); held = {}; items = []; drops = []; last = names["made"]
        dropping = fn != "ct_plain"
        def num(v):
            return v[0] if v is not None and not v[1] else None
        def zero(v):
            return sure(s, v)
        def bad(key, msg):
            f = ctx.prog.fns[last]
            ctx.violation("%s:%s" % (noun, key), msg, last, (f.file, f.line), x.trace)
        def fresh(v):
            """memory nothing was put in"""
            while v is not None and len(v[1]) == 1:
                a = ATOMS[v[1][0][0]]
                if a.kind != "OP" or a.args[0] not in ("sx", "zx"):
                    return a.kind == "U"
                v = a.args[2]
            return False
        for v in m.entries(x):
            k, a = v[2], v[3:]
            ctx.cov["steps"] += 1
            if k == "made":
                last = names["made"]; good = num(a[1]); r = zero(a[0])
                if not good and r is True:
                    bad("size", "a table is made with a number of buckets that is no power of two"); break
                if good and r is False and not phase and not x.faults:
                    bad("refused", "a %s cannot be made although nothing failed" % noun); break
            elif k == "put":
                last = names["put"]; r = zero(a[3])
                if r is None:
                    break
                if r is False:
                    if not phase and not x.faults:
                        bad("refused", "the %s refuses an item although nothing failed" % noun); break
                    continue
                val = num(a[2])
                if hashing:
                    held[num(a[1]) & 0xffffffff] = val
                else:
                    items.append(val)
            elif k == "took":
                last = names["took"]; r = zero(a[2])
                if hashing:
                    held.pop(num(a[1]) & 0xffffffff, None)
                    continue
                if items:
                    if r is True:
                        bad("stays", "taking an item from a stack that has one reports that there is none"); break
                    val = items.pop()
                    if dropping:
                        if drops != [val]:
                            bad("drop", "taking an item from a stack releases %s" % (drops and "another item, or more than one" or "nothing")); break
                elif r is False:
                    bad("phantom", "taking an item from an empty stack reports that there was one"); break
                drops = []
            elif k == "seen":
                if num(a[0]) == 3:
                    here = bool(items); want = items[-1] if items else None; last = "sqfs_stack_top"
                elif hashing:
                    key = num(a[1]) & 0xffffffff; here = key in held; want = held.get(key); last = names["seen"]
                else:
                    j = num(a[1]); here = j < len(items); want = items[j] if here else None; last = names["seen"]
                there = zero(a[2])
                if here and there is True:
                    bad("lost", "an item put into a %s is no longer there" % noun); break
                if not here and there is False:
                    bad("ghost", "a %s shows an item that is not in it" % noun); break
                if here and there is False and (num(a[3]) is not None and num(a[3]) != want or fresh(a[3])):
                    bad("changed", "an item in a %s is not what was put in" % noun); break
            elif k == "also":
                if num(a[1]) is not None and num(a[1]) != 77 or fresh(a[1]):
                    last = names["put"]
                    bad("cut", "part of an item in a table is not what was put in"); break
            elif k == "dropped":
                drops.append(num(a[0]))
            elif k == "size":
                if num(a[0]) == 3:
                    if dropping and drops != items[::-1] and None not in drops:
                        last = "sqfs_stack_destroy"
                        bad("destroy", "destroying a stack does not release each item in it once, the last first"); break
                    drops = []; items = []
                    continue
                n = len(held) if hashing else len(items)
                if num(a[1]) is not None and num(a[1]) != n:
                    last = names["size"]
                    bad("count", "the size of a %s is not the number of items in it" % noun); break
        ctx.cov["sequences"] += 1
    for f in L.e.findings.values():
        if f.kind in ("uaf", "dfree", "badfree", "oob", "leak", "nullc"):
            ctx.finding(f)
    L.e.findings.clear()

@rule("C35")
def c35(ctx):
    L = BoxLab(ctx)
    ctx.need("sqfs_hash_init", "sqfs_hash_add", "sqfs_hash_get", "sqfs_hash_remove", "sqfs_hash_destroy",
             "sqfs_stack_create", "sqfs_stack_push", "sqfs_stack_pop", "sqfs_stack_at", "sqfs_stack_top", "sqfs_stack_size", "sqfs_stack_destroy", "sqfs_stack_init")
    ctx.cov["steps"] = ctx.cov["sequences"] = 0
    for fn, phase in (("ct_hash", 0), ("ct_wide", 0), ("ct_hashfails", 1), ("ct_hashbad", 0), ("ct_stack", 0), ("ct_plain", 0), ("ct_stackfails", 1)):
        guard(L, lambda L: contents(L, fn, phase))
    ctx.cov["queries"] = L.nq; ctx.cov["groups_skipped"] = len(L.skipped)
    ctx.samples = ["%s: %d exits" % (f, n) for f, w, n in L.done] + ["skipped " + s for s in L.skipped]
    return ("small programs that fill and empty a hash table and a stack are analysed with the library's functions in the caller's own state, growing several times, with keys that fall "
            "into one bucket; after every step every key, every position and the size are looked up through the library and compared with what a map and a stack hold after the same "
            "steps; in two programs every allocation succeeds or fails, and a failed step must leave the contents alone.")
