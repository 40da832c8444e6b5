"""C16: link resolution ends: the recursion has a rank, every link read is counted against a limit, and the limit gives ELOOP."""
import itertools, time
from rules_behaviour import *

READERS = ("squash_readlink_inode", "sqfs_readlink")
STACK = 4 << 20
ELOOP, ENAMETOOLONG = 40, 36
BIG = 1000000

class Links(Models):
    """the members of the cycle and the readers of links as unknown functions that are watched"""
    rule = None
    def unknown(self, e, st, ins, args, keep=()):
        for a in args:
            b, off = split(st.norm(a))
            if b is not None and ATOMS[b].ptr and a not in keep:
                t = mk("F", (e.ctx, ins["i"], e.stamp, "clob", b))
                e.write_region(st, (0, ((b, 1),)), None, ("D", t.id, ZERO))
        p = ins["t"] == "ptr"
        self.ret(st, ins, self.F(e, ins, "", 0 if p else -INF, INF, p))

class Cycle:
    def __init__(self, ctx, scc):
        self.ctx = ctx; self.scc = tuple(sorted(scc)); self.edges = []; self.reads = []; self.inc = set(); self.entry = []
        self.fam = None; self.sgn = 1; self.problems = {}; self.phase = None
        self.m = Links(); self.e = ctx.load(models=self.m, watch=self.watch)
        self.prog = ctx.prog
        e = self.e
        e.opaque = set(self.scc) | {r for r in READERS if ctx.defined(r) and r not in self.scc}
        for g in self.scc:
            setattr(self.m, "x_" + g, lambda e, st, ins, args, g=g: self.recurse(e, st, ins, args, g))
        for r in READERS:
            if r in e.opaque:
                setattr(self.m, "x_" + r, self.reader)
        orig = e.apply_exit
        def apply_exit(s, st, ins, fn, x, sb, k):
            r = orig(s, st, ins, fn, x, sb, k)
            if r and self.phase == "count" and e.cur.name in self.scc:
                for m in [m for m in s.marks if m[0] == "inc"]:
                    s.marks = s.marks - {m}
                    self.counted(s, m[1], m[2])
                for m in [m for m in s.marks if m[0] == "readat"]:
                    s.marks = s.marks - {m}
                    self.read(s, m[1], ins)
            return r
        e.apply_exit = apply_exit
    # ---- what happens on a path
    def watch(self, e, st, ins, addr, size, rw, tag, val=None):
        if rw != "w" or val is None or size not in (2, 4, 8) or ATOMS[split(addr)[0]].kind not in ("P", "G", "M") if split(addr)[0] is not None else True:
            return
        old = e.read(st, addr, size)
        d = st.norm(sub(val, old))
        k = 0 if d[1] or d[0] == 0 else 1 if d[0] > 0 else -1
        if e.cur.name in self.scc:
            if k:
                self.inc.add((e.cur.name, addr, k))
            if self.phase == "count":
                self.counted(st, addr, k)
        elif k and size == 4:
            b, off = split(addr)
            if off[1]:
                return
            if self.phase == "count":
                h = split(next(iter(self.fam.values())))
                if ATOMS[b].kind == "G" and b == h[0] or ATOMS[b].kind == ATOMS[h[0]].kind == "P" and off == h[1] and ATOMS[b].tag == ATOMS[h[0]].tag:
                    st.marks = st.marks | frozenset([("inc", addr, k)])
            elif ATOMS[b].kind in ("P", "G"):
                st.marks = st.marks | frozenset([("wrote", addr, k)])
    def value(self, e, st, where, size=4):
        return st.norm(e.read(st, where, size))
    def bal(self, st):
        return next((m[1] for m in st.marks if m[0] == "bal"), 0)
    def setbal(self, st, n):
        st.marks = frozenset(m for m in st.marks if m[0] != "bal") | frozenset([("bal", max(-1, min(1, n)))])
    def counted(self, st, addr, k):
        here = self.fam[self.e.cur.name]
        if addr != here:
            return
        if k == self.sgn:
            self.setbal(st, self.bal(st) - 1)
        else:
            self.problems.setdefault("set", ("the number of links followed is set back during link resolution", self.e.cur.name, self.at))
    def bounded(self, st):
        v = self.value(self.e, st, self.fam[self.e.cur.name])
        return (st.ub(v) if self.sgn > 0 else -st.lb(v)) < 1 << 24
    def read(self, st, loc, ins):
        if self.phase != "count":
            return
        n = self.bal(st) + 1
        if n > 1:
            self.problems.setdefault("read", ("a link is read again without having been counted", self.e.cur.name, loc))
        self.setbal(st, n)
        if not self.bounded(st):
            if any(m[0] == "unb" for m in st.marks):
                self.problems.setdefault("limit", ("links are read without the number of links followed being limited", self.e.cur.name, loc))
            st.marks = st.marks | frozenset([("unb", loc)])
    def reader(self, e, st, ins, args):
        loc = e.loc(ins)
        if e.cur.name in self.scc:
            self.nread += 1
            self.read(st, loc, ins)
        elif self.phase == "count":
            st.marks = st.marks | frozenset([("readat", loc)])
        if self.phase == "full":
            st.marks = st.marks | frozenset([("went", loc)])
        if self.phase == "chain":
            n = next((m[1] for m in st.marks if m[0] == "round"), 0)
            st.marks = frozenset(m for m in st.marks if m[0] != "round") | frozenset([("round", n + 1)])
            self.m.unknown(e, st, ins, args)
            e.write(st, args[2], 1, C(ord("/"))); e.write(st, addc(args[2], 1), 1, C(ord("a"))); e.write(st, addc(args[2], 2), 1, ZERO)
            return self.m.ret(st, ins, C(2))
        self.m.unknown(e, st, ins, args)
    def recurse(self, e, st, ins, args, g):
        loc = e.loc(ins); f = e.cur.name
        if self.phase == "shape" and f in self.scc:
            cells = {}
            for addr in self.cells.get(f, ()):
                cells[addr] = (self.value(e, st, addr), st.copy())
            self.edges.append((f, g, tuple(args), loc, st.copy(), cells))
        if self.phase == "shape" and f not in self.scc:
            self.entry.append((f, g, tuple(args), loc, st.copy()))
        if self.phase == "count" and f in self.scc:
            if self.bal(st) > 0:
                self.problems.setdefault("read", ("a link is read and followed without having been counted", f, loc))
            if any(m[0] == "unb" for m in st.marks):
                if not self.bounded(st):
                    self.problems.setdefault("limit", ("a link is followed without the number of links followed being limited", f, loc))
                st.marks = frozenset(m for m in st.marks if m[0] != "unb")
        if self.phase == "full":
            st.marks = st.marks | frozenset([("went", loc)])
        if self.phase == "chain":
            # found, and a link once more
            ps = self.prog.fns[g]
            for j, x in enumerate(args):
                t = ((ps.dity[j + 1] if len(ps.dity) > j + 1 else None) or "").replace("const ", "")
                if t == "*short":
                    e.write(st, x, 2, ONE)
                elif t == "*sqfs_inode" and self.mode:
                    e.write(st, addc(x, self.mode[0]), self.mode[1], C(0o120777))
            return self.m.ret(st, ins, ZERO)
        if self.phase == "keep":
            s2 = st.copy()
            self.m.unknown(e, s2, ins, args)
            r = s2.env[ins["i"]] if ins["t"] != "void" else None
            e.write(s2, errno_addr(), 4, C(ELOOP))
            ok = r is None or (s2.add_le(r) and s2.add_le(neg(r)) if ins["t"] == "ptr" else s2.add_ne(r))
            s2.marks = s2.marks | frozenset([("eloop", loc)])
            self.m.unknown(e, st, ins, args)
            return [st, s2] if ok is not False else [st]
        self.m.unknown(e, st, ins, args)
    # ---- queries
    def run(self, f, phase, setup=None):
        self.phase = phase; self.nread = 0; self.m.nofail = phase == "full"; self.at = ("", 0)
        if getattr(self, "lastphase", None) != phase:
            self.e.sums.clear(); self.lastphase = phase
        return self.e.query(f, setup or (lambda e, s, a: True))

def frames(prog, scc):
    return sum(i.get("size") or 0 for f in scc for B in prog.fns[f].blocks for i in B if i["op"] == "alloca") + 128 * len(scc)

def acyclic(nodes, edges):
    left = set(nodes)
    while left:
        r = [n for n in left if not any(a in left and b == n for a, b in edges)]
        if not r:
            return False
        left -= set(r)
    return True

def resolve(ctx):
    """the cycles of the call graph that read links"""
    from program import Program
    import frontend
    prog = Program(frontend.load(sample=False))
    out = []
    for c in prog.sccs:
        if len(c) > 1 or c[0] in prog.calls.get(c[0], ()):
            if any(prog.closure(f) & set(READERS) for f in c):
                out.append(c)
    return out

def families(cy, choices):
    for pick in itertools.product(*[choices[f] for f in cy.scc]):
        yield dict(zip(cy.scc, pick))

def depth_rank(cy):
    """the best measure of the recursion: (bytes, description, family, B)"""
    prog = cy.prog; best = None; why = None
    P = {f: [V(a) for a in cy.e.ptypes(prog.fns[f])] for f in cy.scc}
    fr = frames(prog, cy.scc)
    cands = {f: [("param", j) for j, (n, t) in enumerate(prog.fns[f].params) if t.startswith("i")] for f in cy.scc}
    cells = {f: [("cell", a) for a in cy.cells.get(f, ())] for f in cy.scc}
    for kind, ch in (("param", cands), ("cell", cells)):
        if any(not ch[f] for f in cy.scc):
            continue
        for fam in families(cy, ch):
            for sgn in (1, -1):
                zero = set(); free = set(); B = None; ok = True; start = None
                for f, g, args, loc, st, cv in cy.edges:
                    if kind == "param":
                        v = args[fam[g][1]]; v0 = P[f][fam[f][1]]
                    else:
                        if not same_cell(cy, P, fam, f, g, args):
                            ok = False; break
                        v, _ = cv[fam[f][1]]; v0 = cy.at_entry[f][fam[f][1]]
                    d = sub(v, v0) if sgn > 0 else sub(v0, v)
                    k = st.lb(st.norm(d))
                    if k < 0:
                        ok = False; break
                    if k == 0:
                        zero.add((f, g))
                    ub = st.ub(v) if sgn > 0 else -st.lb(v)
                    if ub < 1 << 30:
                        B = ub if B is None else max(B, ub)
                    else:
                        free.add((f, g))
                if not ok or B is None or not acyclic(cy.scc, zero) or not acyclic(cy.scc, free):
                    continue
                for f, g, args, loc, st in cy.entry:
                    v = args[fam[g][1]] if kind == "param" else st.norm(cy.e.read(st, subst_addr(cy, P, fam[g][1], g, args), 4))
                    s = st.lb(v) if sgn > 0 else -st.ub(v)
                    start = s if start is None else min(start, s)
                if start is None or start == -INF:
                    start = 0 if sgn > 0 else B - 64
                n = (B - start + 2) * fr
                if best is None or n < best[0]:
                    best = (n, kind, fam, B, sgn)
    return best

def subst_addr(cy, P, addr, g, args):
    b, off = split(addr)
    a = ATOMS[b] if b is not None else None
    if a is not None and a.kind == "P":
        return add(args[a.args[1]], off)
    return addr

def same_cell(cy, P, fam, f, g, args):
    return subst_addr(cy, P, fam[g][1], g, args) == fam[f][1]

def cycle(ctx, scc):
    cy = Cycle(ctx, scc); e = cy.e; prog = ctx.prog
    # the cells counted in, anywhere in the cycle or below it, as places behind arguments
    cy.cells = {}
    exits = {f: cy.run(f, "shape") for f in cy.scc}
    offs = set()
    for f, addr, k in list(cy.inc):
        b, off = split(addr)
        if ATOMS[b].kind in ("P", "G"):
            offs.add((ATOMS[b].kind, None if ATOMS[b].kind == "P" else b, off))
    for f in cy.scc:
        for x in exits[f].exits if exits[f] else ():
            for m in x.marks:
                if m[0] == "wrote" and split(m[1])[0] is not None:
                    b, off = split(m[1])
                    if ATOMS[b].kind in ("P", "G"):
                        offs.add((ATOMS[b].kind, None if ATOMS[b].kind == "P" else b, off))
    for f in cy.scc:
        l = []
        for kind, b, off in sorted(offs, key=repr):
            if off[1]:
                continue
            if kind == "G":
                l.append(add(V(ATOMS[b]), off))
            else:
                for j, (n, t) in enumerate(prog.fns[f].params):
                    if t == "ptr":
                        l.append(addc(V(e.ptypes(prog.fns[f])[j]), off[0]))
        cy.cells[f] = l
    cy.edges = []; cy.at_entry = {}
    e.sums.clear()
    for f in cy.scc:
        def setup(en, s, a, f=f):
            cy.at_entry[f] = {c: s.norm(en.read(s, c, 4)) for c in cy.cells[f]}
            return True
        cy.run(f, "shape", setup)
    callers = sorted(n for n, cs in prog.calls.items() if n not in cy.scc and cs & set(cy.scc) and ctx.defined(n))
    cy.entry = []
    for n in callers:
        cy.run(n, "shape")
    ctx.cov["recursive_calls"] = ctx.cov.get("recursive_calls", 0) + len(cy.edges)
    if not cy.edges:
        return cy, None, None
    # 1. a rank of the recursion
    where = cy.edges[0]
    best = depth_rank(cy)
    if best is None:
        ctx.violation("depth:" + ",".join(cy.scc), "link resolution recurses (%s) without anything that limits how deep" % " -> ".join(cy.scc), where[0], where[3])
    elif best[0] > STACK:
        ctx.violation("stack:" + ",".join(cy.scc), "link resolution can recurse so deep that its frames take %d bytes of stack (limit %s)" % (best[0], best[3]), where[0], where[3])
    # 2. every link read is counted against a limit
    P = {f: [V(a) for a in e.ptypes(prog.fns[f])] for f in cy.scc}
    good = None; bad = None; tried = 0
    if all(cy.cells[f] for f in cy.scc):
        for fam in families(cy, {f: [("cell", a) for a in cy.cells[f]] for f in cy.scc}):
            if not all(same_cell(cy, P, fam, f, g, args) for f, g, args, loc, st, cv in cy.edges):
                continue
            if len({(ATOMS[split(fam[f][1])[0]].tag or "").replace("const ", "") for f in fam}) > 1:
                continue
            if not any(f in cy.scc and a == fam[f][1] for f, a, k in cy.inc) and not any(m[0] == "wrote" and m[1] == fam[f][1] for f in cy.scc if exits[f] for x in exits[f].exits for m in x.marks):
                continue
            for sgn in (1, -1):
                if not any(k == sgn for f, a, k in cy.inc if a == fam[f][1]) and not any(m[0] == "wrote" and m[1] == fam[f][1] and m[2] == sgn for f in cy.scc if exits[f] for x in exits[f].exits for m in x.marks):
                    continue
                tried += 1
                cy.fam = {f: fam[f][1] for f in fam}; cy.sgn = sgn; cy.problems = {}
                n = 0
                for f in cy.scc:
                    e.sums.clear()
                    q = cy.run(f, "count")
                    n += cy.nread
                    for x in q.exits if q else ():
                        if CUT in x.marks or x.ret is None:
                            continue
                        if not can_be(x, 0):
                            continue
                        if ("bal", 1) in x.marks:
                            cy.problems.setdefault("read", ("a link is read and followed without having been counted", f, x.loc))
                        u = [m for m in x.marks if m[0] == "unb"]
                        if u:
                            v = mem(cy.fam[f], 4); st = state_of(x)
                            y = st.norm(e.read(st, cy.fam[f], 4))
                            if not (st.ub(y) if sgn > 0 else -st.lb(y)) < 1 << 24:
                                cy.problems.setdefault("limit", ("a link is followed without the number of links followed being limited", f, u[0][1]))
                if not cy.problems:
                    good = (fam, sgn)
                elif bad is None or len(cy.problems) < len(bad):
                    bad = dict(cy.problems)
    reads = any(prog.calls[f] & set(READERS) for f in prog.closure(cy.scc[0]) if f in prog.calls)
    ctx.cov["counters_tried"] = ctx.cov.get("counters_tried", 0) + tried
    if good is None and reads:
        if bad:
            for k, (msg, fn, loc) in bad.items():
                ctx.violation("count:%s:%s" % (k, fn), msg, fn, loc)
        else:
            ctx.violation("count:" + ",".join(cy.scc), "links are read in the recursion (%s) without being counted in anything the whole resolution shares" % " -> ".join(cy.scc), where[0], where[3])
    return cy, best, good

def can_be(x, v):
    if x.ret is None:
        return False
    s = state_of(x)
    d = s.norm(addc(x.ret, -v))
    return s.add_le(d) is not False and s.add_le(neg(d)) is not False

def errno_at(e, x):
    s = state_of(x)
    return s.norm(e.read(s, errno_addr(), 4))

def at_limit(ctx, cy, what, setup, f):
    """with the measure at its limit nothing goes on and the failure is ELOOP"""
    q = cy.run(f, "full", setup)
    if not q:
        return
    n40 = 0
    for x in q.exits:
        if CUT in x.marks:
            continue
        if any(m[0] == "went" for m in x.marks):
            continue
        if x.ret is not None and single(x.ret) is None and not x.ret[1] and x.ret[0] == 0:
            continue
        v = errno_at(cy.e, x)
        if v == C(ELOOP):
            n40 += 1
        elif not v[1] and v[0] != ENAMETOOLONG and x.ret is not None and not can_be(x, 0):
            ctx.violation("eloop:%s:%s" % (f, what), "%s fails with errno %d instead of ELOOP when %s is at its limit" % (f, v[0], what), f, x.loc, x.trace)
    ctx.cov["limit_exits"] = ctx.cov.get("limit_exits", 0) + n40
    return n40, q

def keeps(ctx, cy):
    """a resolution that failed with ELOOP stays failed, with ELOOP, up to the call"""
    prog = ctx.prog; up = set(cy.scc)
    work = list(cy.scc)
    callers = {}
    for a, cs in prog.calls.items():
        for c in cs:
            callers.setdefault(c, set()).add(a)
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in up and ctx.defined(c):
                up.add(c); work.append(c)
    n = 0
    for f in sorted(up):
        q = cy.run(f, "keep")
        for x in q.exits if q else ():
            m = [m for m in x.marks if m[0] == "eloop"]
            if CUT in x.marks or not m or x.ret is None:
                continue
            n += 1
            ptr = prog.fns[f].ret == "ptr"
            if f in cy.scc and x.ret == ZERO:
                ctx.violation("lost:%s" % f, "%s succeeds although following a link failed with ELOOP" % f, f, x.loc, x.trace)
                continue
            if ptr and x.ret != ZERO or not ptr and can_be(x, 0):
                continue
            v = errno_at(cy.e, x)
            if not v[1] and v[0] != ELOOP:
                ctx.violation("kept:%s" % f, "%s fails with errno %d although link resolution failed with ELOOP" % (f, v[0]), f, x.loc, x.trace)
    ctx.cov["failures_followed"] = ctx.cov.get("failures_followed", 0) + n

def chain(ctx, cy):
    """links that lead to further links, each found at once: the last thing to happen is ELOOP"""
    e = cy.e; cy.mode = None; o = 0; t = "sqfs_inode"
    for p in ("base", "mode"):
        m = next((x for x in (ctx.prog.dis.get(t) or {}).get("members", ()) if x[0] == p), None)
        if m is None:
            return
        o += m[1]; n = m[2]; t = m[3]
    cy.mode = (o, n)
    e.opaque |= {"sqfs_inode_get"}
    cy.m.x_sqfs_inode_get = lambda e, st, ins, args: cy.m.ret(st, ins, ZERO)
    # what only works on texts: done, with an unknown text (or an unknown answer)
    helpers = set()
    for g in ctx.prog.fns:
        f = ctx.prog.fns[g]
        if f.decl or g in e.opaque or not any(g in ctx.prog.calls.get(h, ()) for h in cy.scc):
            continue
        ty = [(f.dity[j + 1] if len(f.dity) > j + 1 else None) or "" for j, (n, t) in enumerate(f.params) if t == "ptr"]
        if ty and all(t.replace("const ", "").startswith(("*char", "**char")) for t in ty):
            helpers.add(g)
            def done(e, st, ins, args, f=f):
                cy.m.unknown(e, st, ins, args)
                if f.dity and f.dity[0] == "sqfs_err":
                    cy.m.ret(st, ins, ZERO)
                elif ins["t"] != "void":
                    st.marks = st.marks | frozenset([("text", f.name)])
            setattr(cy.m, "x_" + g, done)
    e.opaque |= helpers
    e.deadline = time.time() + 150
    save = e.peel, e.MAXB, e.MAXX, e.eager
    e.peel, e.MAXB, e.MAXX, e.eager = 48, 96, 96, False
    k = 0
    for f in cy.scc:
        if not set(READERS) & ctx.prog.calls.get(f, set()):
            continue
        q = cy.run(f, "chain")
        for x in q.exits if q else ():
            n = next((m[1] for m in x.marks if m[0] == "round"), 0)
            if CUT in x.marks or n < 2 or x.faults or x.ret is None or any(m[0] == "text" for m in x.marks):
                continue
            k += 1
            v = errno_at(e, x)
            if x.ret == ZERO:
                continue
            if not can_be(x, 0) and not v[1] and v[0] not in (ELOOP, ENAMETOOLONG):
                ctx.violation("chain:%s" % f, "%s fails with errno %d instead of ELOOP after %d links that lead to links" % (f, v[0], n), f, x.loc, x.trace)
            elif not can_be(x, 0) and v[1] and not any(m[0] == "errno" for m in x.marks) and single(v) is not None and single(v).kind == "M":
                ctx.violation("chain:%s" % f, "%s fails without setting errno to ELOOP after %d links that lead to links" % (f, n), f, x.loc, x.trace)
    e.peel, e.MAXB, e.MAXX, e.eager = save
    e.opaque -= {"sqfs_inode_get"} | helpers; e.deadline = None
    ctx.cov["chains_ended"] = ctx.cov.get("chains_ended", 0) + k

@rule("C16")
def c16(ctx):
    ctx.load()
    ctx.need("squash_stat", "sqfs_lookup_path_inner")
    sc = resolve(ctx)
    ctx.cov["cycles"] = len(sc)
    for scc in sc:
        cy, best, good = cycle(ctx, scc)
        if not cy.edges:
            continue
        lim = []
        if best and best[1] == "param":
            for f in cy.scc:
                j = best[2][f][1]
                lim.append((f, "the depth", lambda e, s, a, j=j: fixed(e, s, a[j], best[3] if best[4] > 0 else -best[3]) is not False))
        if good:
            fam, sgn = good
            for f in cy.scc:
                def setup(e, s, a, f=f):
                    e.write(s, fam[f][1], 4, C(BIG if sgn > 0 else 0)); return True
                lim.append((f, "the number of links", setup))
        got = {}
        for f, what, setup in lim:
            r = at_limit(ctx, cy, what, setup, f)
            if r:
                got.setdefault(what, 0); got[what] += r[0]
        for what, n in got.items():
            if not n:
                ctx.violation("eloop:%s" % what, "no failure with ELOOP when %s is at its limit" % what, cy.scc[0], cy.edges[0][3])
        keeps(ctx, cy)
        try:
            chain(ctx, cy)
        except (ValueError, TypeError, IndexError, KeyError, StopIteration, AttributeError, Broken) as ex:
            if os.environ.get("LSQ_STRICT"):
                raise
            cy.e.deadline = None
            ctx.samples.append("chains of links skipped: %s" % ex)
        ctx.samples.append("cycle %s: %d recursive calls; depth limited by %s to %s (%s bytes of stack); links counted in %s" % (
            " ".join(cy.scc), len(cy.edges), best and best[1], best and best[3], best and best[0], good and {f: show(v[1]) for f, v in good[0].items()}))
    return ("each cycle of the call graph that reads links is analysed path by path with its own members unknown: some value passed along must grow on every "
            "round of the recursion and be bounded on every cycle (and the frames that makes possible must fit in %d bytes), every read of a link must be "
            "counted in a cell the whole resolution shares, against a limit; with the value at its limit nothing goes on and errno is ELOOP; a resolution that "
            "failed with ELOOP is followed up through every caller, where the result must be a failure with errno still ELOOP" % STACK)
