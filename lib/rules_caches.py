"""C22: what the caches hand out, and what they keep."""
from rules_behaviour import *

class Caches(World):
    """the caches as slots named by cache and key; loading a block as a function with a chosen outcome"""
    def note_(self, st, *m):
        st.marks = st.marks | frozenset([m])
    def x_sqfs_cache_get(self, e, st, ins, args):
        self.note_(st, "get", args[0], args[1])
        self.ret(st, ins, V(mk("OP", ("slot", args[0], args[1]), 1 << 32, INF, True)) if self.out.get("get", "hit") == "hit" else ZERO)
    def x_sqfs_cache_add(self, e, st, ins, args):
        self.note_(st, "add", args[0], args[1])
        self.ret(st, ins, V(mk("OP", ("slot", args[0], args[1]), 1 << 32, INF, True)))
    def loaded(self, e, st, ins, out, pos, *m):
        self.note_(st, "load", pos, *m)
        o = self.out.get("load", 0)
        e.write(st, out, 8, V(mk("OP", ("rblk", pos), 1 << 32, INF, True)) if not o else ZERO)
        self.ret(st, ins, C(o))
    def x_sqfs_md_block_read(self, e, st, ins, args):
        e.write(st, args[2], 8, V(mk("OP", ("draw", "stored"), 2, 8194)))
        self.loaded(e, st, ins, args[3], args[1])
    def x_sqfs_data_block_read(self, e, st, ins, args):
        self.loaded(e, st, ins, args[3], args[1], args[2])
    def x_sqfs_md_read(self, e, st, ins, args):
        if self.out.get("md_read"):
            self.note_(st, "md", ZERO, ZERO, ZERO)
            return self.ret(st, ins, C(self.out["md_read"]))
        return super().x_sqfs_md_read(e, st, ins, args)
    def disposer(self, e, st, ins, args):
        n = sum(1 for m in st.marks if m[0] == "dispose" and m[1] == args[0])
        self.note_(st, "dispose", args[0], C(n))
        self.ret(st, ins, ZERO)

NSLOT = 3

def slots(L):
    """the cache itself, with a few slots"""
    ctx = L.ctx
    disp = sorted(ctx.prog.fieldtargets("sqfs_cache.dispose", {"t": "void", "a": []})) if "sqfs_cache_add" in ctx.prog.fns else []
    for n in disp:
        setattr(L.m, "x_" + n, L.m.disposer)
    A0 = Arg(0); idxs = Fld(A0, "sqfs_cache", "idxs"); buf = Fld(A0, "sqfs_cache", "buf")
    ld = lambda env, b, m: L.ld(env, b, "sqfs_cache", m, m in ("idxs", "buf"))
    L.e.peel = NSLOT + 2
    def keys(env, a):
        """distinct keys in the slots, some of them empty"""
        b = env.val(a[0]); ix = ld(env, b, "idxs"); ld(env, b, "buf")
        L.st(env, b, "sqfs_cache", "size", env.r.choice((8, 16, 24, env.r.randrange(1, 1 << 20))))
        k = [env.r.choice((0, 1 + i, (1 << 32) * (i + 1), env.r.randrange(1, 1 << 62) & ~3 | i + 1)) for i in range(NSLOT)]
        for i, v in enumerate(k):
            env.put(ix + 8 * i, 8, v)
        return k
    slot = lambda env, a, i: ld(env, env.val(a[0]), "buf") + i * ld(env, env.val(a[0]), "size")
    def same(env, a, but=()):
        b = env.val(a[0]); ix = ld(env, b, "idxs")
        return [("the key of slot %d" % i, 8, (lambda x, i=i: mem(addc(idxs.term(L, state0(L), a), 8 * i), 8)), env.mem(ix + 8 * i, 8)) for i in range(NSLOT) if i not in but] + \
               [("the member %s" % m, 8, (lambda x, m=m: L.at(x, a[0], "sqfs_cache", m)), ld(env, b, m)) for m in ("idxs", "buf", "size", "count")]
    fn = "sqfs_cache_get"
    if ctx.defined(fn):
        a = L.args(fn)
        c = Case(L, (A0, "sqfs_cache", "count", NSLOT)).live(idxs, buf)
        for want in list(range(NSLOT)) + [None]:
            def es(env):
                c.env(env, a)
                k = keys(env, a)
                if want is None:
                    v = env.r.choice([x ^ y for x in k for y in (1 << 33, 1 << 60, 1 << 31)] + [env.r.randrange(1, 1 << 62)])
                    if v in k or not v:
                        return False
                else:
                    v = k[want]
                    if not v:
                        return False
                env.leaf[single(a[1]).id] = v
            L.run(fn, "a key in slot %d" % want if want is not None else "a key in no slot", c.setup, es,
                  lambda env: [("what is found", 8, lambda x: x.ret, slot(env, a, want) if want is not None else 0), ("the slot to fill next", 8, lambda x: L.at(x, a[0], "sqfs_cache", "next"), ld(env, env.val(a[0]), "next"))] + same(env, a), opaque=())
    fn = "sqfs_cache_add"
    if ctx.defined(fn):
        a = L.args(fn)
        for nxt in range(NSLOT):
            for held in (0, 1):
                c = Case(L, (A0, "sqfs_cache", "count", NSLOT), (A0, "sqfs_cache", "next", nxt)).live(idxs, buf)
                el = lambda s: addc(idxs.term(L, s, a), 8 * nxt)
                def setup(e, s, ar):
                    if c.setup(e, s, ar) is False:
                        return False
                    if not held:
                        e.write(s, el(s), 8, ZERO)
                        return True
                    return s.add_le(sub(ONE, e.read(s, el(s), 8, False, "", "unsigned long")))
                def es(env):
                    c.env(env, a)
                    keys(env, a)
                    env.put(ld(env, env.val(a[0]), "idxs") + 8 * nxt, 8, env.r.randrange(1, 1 << 62) if held else 0)
                    env.leaf[single(a[1]).id] = env.r.choice((1, env.r.randrange(1, 1 << 62)))
                def wanted(env):
                    at = slot(env, a, nxt)
                    gone = lambda x: [m for m in x.marks if m[0] == "dispose"]
                    return [("the slot", 8, lambda x: x.ret, at), ("the slot to fill next", 8, lambda x: L.at(x, a[0], "sqfs_cache", "next"), (nxt + 1) % NSLOT),
                            ("the key of the slot", 8, lambda x: mem(el(state0(L)), 8), env.leaf[single(a[1]).id]),
                            ("the number of times old content is released", 8, lambda x: C(len(gone(x))), held)] + \
                           ([("what is released", 8, lambda x: gone(x)[0][1] if gone(x) else None, at)] if held else []) + same(env, a, (nxt,))
                L.run(fn, "with slot %d of %d next, %s" % (nxt, NSLOT, "in use" if held else "empty"), setup, es, wanted, opaque=disp)
    fn = "sqfs_cache_init"
    if ctx.defined(fn):
        a = L.args(fn)
        L.m.nofail = True
        c = Case(L).arg(2, NSLOT).arg(1, 16)
        def wanted(env):
            f = lambda m: (lambda x: L.at(x, a[0], "sqfs_cache", m))
            el = lambda i: (lambda x: mem(addc(L.rd(state_of(x), a[0], "sqfs_cache", "idxs"), 8 * i), 8))
            return [("the result", 4, lambda x: x.ret, 0), ("the size of a slot", 8, f("size"), 16), ("the number of slots", 8, f("count"), NSLOT), ("the slot to fill next", 8, f("next"), 0),
                    ("what releases content", 8, f("dispose"), env.val(a[3]))] + [("the key of slot %d" % i, 8, el(i), 0) for i in range(NSLOT)]
        L.run(fn, "with %d slots" % NSLOT, c.setup, lambda env: c.env(env, a), wanted, opaque=())
        L.m.nofail = False
    fn = "sqfs_cache_destroy"
    if ctx.defined(fn):
        a = L.args(fn)
        for pat in range(1 << NSLOT):
            c = Case(L, (A0, "sqfs_cache", "count", NSLOT)).live(idxs, buf)
            el = lambda s, i: addc(idxs.term(L, s, a), 8 * i)
            def setup(e, s, ar):
                if c.setup(e, s, ar) is False:
                    return False
                for i in range(NSLOT):
                    if pat >> i & 1:
                        if not s.add_le(sub(ONE, e.read(s, el(s, i), 8, False, "", "unsigned long"))):
                            return False
                    else:
                        e.write(s, el(s, i), 8, ZERO)
                return True
            def es(env):
                c.env(env, a); keys(env, a)
                for i in range(NSLOT):
                    env.put(ld(env, env.val(a[0]), "idxs") + 8 * i, 8, env.r.randrange(1, 1 << 62) if pat >> i & 1 else 0)
            def wanted(env):
                gone = lambda x: [m for m in x.marks if m[0] == "dispose"]
                return [("the number of releases", 8, lambda x: C(len(gone(x))), bin(pat).count("1"))] + \
                       [("whether slot %d is released" % i, 1, (lambda x, i=i: C(int(any(env.val(m[1]) == slot(env, a, i) for m in gone(x))))), pat >> i & 1) for i in range(NSLOT)]
            L.run(fn, "with slots %s in use" % (",".join(str(i) for i in range(NSLOT) if pat >> i & 1) or "none"), setup, es, wanted, opaque=disp)
    L.e.peel = 3

def state0(L):
    return St()

def users(L):
    """the caches of blocks: what is asked for, kept and handed out"""
    ctx = L.ctx
    LOW = ("sqfs_cache_get", "sqfs_cache_add", "sqfs_md_block_read", "sqfs_data_block_read")
    if not all(map(ctx.defined, LOW)):
        return
    eb = L.off("sqfs_block_cache_entry", "block"); ed = L.off("sqfs_block_cache_entry", "data_size")
    for fn in ("sqfs_md_cache", "sqfs_data_cache"):
        if not ctx.defined(fn):
            continue
        a = L.args(fn); md = fn == "sqfs_md_cache"
        blk = a[2] if md else a[4]
        for out in ({"get": "hit"}, {"get": "miss"}, {"get": "miss", "load": 1}, {"get": "miss", "load": 5}, {"get": "hit", "key": 0}, {"get": "miss", "key": 0}):
            L.m.out = out
            zero = "key" in out
            posval = lambda env: env.mem(env.val(a[1]), 8) if md else env.leaf[single(a[2]).id]
            def setup(e, s, ar):
                if not zero:
                    p = e.read(s, ar[1], 8, False, "", "unsigned long") if md else ar[2]
                    return s.add_le(sub(ONE, p))
                if md:
                    e.write(s, ar[1], 8, ZERO)
                    return True
                return fixed(e, s, ar[2], 0)
            def es(env):
                v = 0 if zero else env.r.choice((1, 96, env.r.randrange(1, 1 << 40), env.r.randrange(1, 1 << 62)))
                if md:
                    env.put(env.val(a[1]), 8, v)
                else:
                    env.leaf[single(a[2]).id] = v
            def wanted(env):
                p = posval(env)
                own = env.val(a[0]) + L.off("sqfs", "md_cache")[0] if md else env.val(a[1])
                asked = lambda x: has(x, "get")
                if zero:
                    return [("whether the key of empty slots is looked for", 1, lambda x: C(int(any(m[0] in ("get", "add") and env.val(m[2]) == 0 for m in x.marks))), 0)]
                keep = [("the key looked for", 8, marked("get", 2), p), ("the cache looked in", 8, marked("get", 1), own)]
                sl = env.ufun("slot", (own, p))
                if out["get"] == "hit":
                    w = [("the result", 4, lambda x: x.ret if asked(x) else None, 0), ("the block", 8, lambda x: mem(blk, 8) if asked(x) else None, env.mem(sl + eb[0], 8, True)),
                         ("whether a slot is claimed", 1, lambda x: C(int(has(x, "add"))), 0)]
                    return w + keep + ([("the position after the block", 8, lambda x: mem(a[1], 8) if asked(x) else None, p + env.mem(sl + ed[0], 8))] if md else [])
                tried = lambda x: asked(x) and has(x, "load")
                if out.get("load"):
                    return [("whether the call succeeds", 1, lambda x: ("truth", x.ret) if tried(x) else None, 1), ("whether a slot is claimed", 1, lambda x: C(int(has(x, "add"))) if tried(x) else None, 0)] + keep
                new = env.ufun("rblk", (p,))
                w = [("the result", 4, lambda x: x.ret if tried(x) else None, 0), ("the block", 8, lambda x: mem(blk, 8) if tried(x) else None, new), ("the position loaded from", 8, marked("load", 1), p),
                     ("the key claimed", 8, marked("add", 2), p), ("the cache claimed in", 8, marked("add", 1), own),
                     ("the block kept", 8, lambda x: mem(addc(V(mk("OP", ("slot", marked("add", 1)(x), marked("add", 2)(x)), 1 << 32, INF, True)), eb[0]), 8) if has(x, "add") and tried(x) else None, new)]
                if md:
                    w += [("the position after the block", 8, lambda x: mem(a[1], 8) if tried(x) else None, p + env.draw("stored", mk("OP", ("draw", "stored"), 2, 8194))),
                          ("the size kept", 8, lambda x: mem(addc(V(mk("OP", ("slot", marked("add", 1)(x), marked("add", 2)(x)), 1 << 32, INF, True)), ed[0]), 8) if has(x, "add") and tried(x) else None, env.draw("stored"))]
                else:
                    w += [("the header loaded by", 4, marked("load", 2), env.val(a[3]))]
                return w + keep
            L.run(fn, ", ".join("%s %s" % kv for kv in sorted(out.items())), setup, es, wanted, opaque=LOW)
    L.m.out = {}

def indexes(L):
    """the cache of block indexes: its key, and that a failure to build one claims no slot"""
    ctx = L.ctx; fn = "sqfs_blockidx_blocklist"
    if not (ctx.defined(fn) and all(map(ctx.defined, ("sqfs_cache_get", "sqfs_cache_add", "sqfs_md_read")))):
        return
    a = L.args(fn); ino = a[1]
    for out in ({"get": "hit"}, {"get": "miss"}, {"get": "miss", "md_read": 1}, {"get": "miss", "md_read": 5}):
        L.m.out = out
        q = L.run(fn, ", ".join("%s %s" % kv for kv in sorted(out.items())), None, lambda env: False, lambda env: [], opaque=("sqfs_cache_get", "sqfs_cache_add", "sqfs_md_read"))
        o, n = L.off("sqfs_inode", "base.inode_number")
        for x in q.exits if q else ():
            for m in sorted((m for m in x.marks if m[0] in ("get", "add")), key=repr):
                env = Env(3)
                for v in (0, 1, 7, 0xfffffffe, 0xffffffff):
                    env = Env(3); env.put(env.val(ino) + o, n, v)
                    try:
                        got = M64(env.val(m[2]))
                        L.j.compared += 1
                    except Unknown:
                        L.j.unresolved += 1
                        continue
                    if got != v + 1:
                        ctx.violation("%s:key" % fn, "%s %s the cache of indexes with key %#x for object number %#x, which should be %#x" % (fn, "looks in" if m[0] == "get" else "adds to", got, v, v + 1), fn, x.loc, x.trace)
            r = state_of(x).ev(("eq", x.ret)) if x.ret is not None else None
            if r is False and has(x, "add"):
                ctx.violation("%s:kept" % fn, "%s can fail after it claimed a slot of the cache of indexes" % fn, fn, x.loc, x.trace)
            L.j.compared += 1
    L.m.out = {}

@rule("C22")
def c22(ctx):
    ctx.L = L = Layout(ctx, 40 if ctx.tier == "quick" else 400, Caches)
    ctx.need("sqfs_cache_get", "sqfs_cache_add")
    for g in (slots, users, indexes):
        guard(L, g)
    return finish(L, "every path of the cache (with %d slots in each state of use) and of its users (for hits, misses and failing loads) is analysed; the slot handed out, the keys, what is "
                  "released and how often, what is loaded, kept and handed out are compared with what the requested key calls for." % NSLOT)
