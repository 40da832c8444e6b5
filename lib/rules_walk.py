"""C32: a traversal reports every entry once, in order, under its path."""
from rules_lookup import *

BIG = 1 << 50

class Here(At):
    """the entry of the directory whose metadata starts at `blk`, at byte `pos` of it"""
    def __init__(self, blk, pos, kind):
        At.__init__(self, add(blk, pos)); self.blk = blk; self.pos = pos; self.kind = kind
    size = property(lambda self: addc(D(self.tok, 0, 1, 0, 7), 1))
    type = property(lambda self: C(self.kind))
    name_size = size

class Tree(Directory):
    """inodes and directories of unknown content: fetching, opening and stepping deliver them or fail"""
    nofail = property(lambda self: True, lambda self, v: None)
    here = Here; kinds = (1, 2)
    def block_of(self, iid):
        return D(mk("OP", ("stream", addc(iid, 1 << 52))), self.fld("sqfs_inode", "xtra.dir.start_block")[0], self.fld("sqfs_inode", "xtra.dir.start_block")[1])
    def x_sqfs_inode_get(self, e, st, ins, args):
        bad = self.other(e, st, ins, self.err(e, ins, "igerr"), "get")
        inode, iid = st.norm(args[1]), st.norm(args[2])
        e.write_region(st, inode, C(self.L.ctx.prog.dis["sqfs_inode"]["size"]), ("D", mk("OP", ("stream", addc(iid, 1 << 52))).id, ZERO))
        self.log(st, "get", iid); self.ret(st, ins, ZERO)
        return [st] + bad
    def x_sqfs_dir_open(self, e, st, ins, args):
        fs, inode, d, at = (st.norm(a) for a in args[:4])
        bad = self.other(e, st, ins, self.err(e, ins, "doerr"), "open")
        b = self.get(e, st, inode, "sqfs_inode", "xtra.dir.start_block")
        e.write_region(st, d, C(self.L.ctx.prog.dis["sqfs_dir"]["size"]), ("z",))
        self.put(e, st, d, "sqfs_dir", "cur.block", b); self.put(e, st, d, "sqfs_dir", "offset", at)
        self.log(st, "open", b, at); self.ret(st, ins, ZERO)
        return [st] + bad
    def x_sqfs_dir_next(self, e, st, ins, args):
        fs, d, ent, err = (st.norm(a) for a in args[:4])
        blk, pos = self.get(e, st, d, "sqfs_dir", "cur.block"), self.get(e, st, d, "sqfs_dir", "offset")
        self.log(st, "next", blk, pos)
        out = []
        for kind in self.kinds:
            s = st.copy(); at = self.here(blk, pos, kind)
            nm = s.norm(e.read(s, addc(ent, self.fld("sqfs_dir_entry", "name")[0]), 8, True))
            for p in ("offset", "next_offset", "type", "name_size", "inode", "inode_number"):
                self.put(e, s, ent, "sqfs_dir_entry", p, getattr(at, p))
            if s.ev(("eq", nm)) is not True and split(nm)[0] is not None:
                e.write_region(s, nm, at.size, ("D", at.name.id, split(nm)[1]))
            self.put(e, s, d, "sqfs_dir", "offset", at.next_offset)
            self.log(s, "entry", blk, pos, C(kind))
            e.write(s, err, 4, ZERO); self.ret(s, ins, ONE); out.append(s)
        s = st.copy()
        e.write(s, err, 4, self.err(e, ins, "nexterr")); self.ret(s, ins, ZERO); self.log(s, "fails", "next")
        self.note(s, e, ins, "the directory cannot be read"); out.append(s)
        e.write(st, err, 4, ZERO); self.ret(st, ins, ZERO); self.log(st, "end")
        return out + [st]
    # ---- what the program sees
    def x_lsq_opened(self, e, st, ins, args):
        self.log(st, "opened", args[0])
    def x_lsq_pruned(self, e, st, ins, args):
        self.log(st, "prune")
    def x_lsq_visit(self, e, st, ins, args):
        more, err, t = (st.norm(a) for a in args[:3])
        g = lambda p: self.get(e, st, t, "sqfs_traverse", p)
        w = Walk(self, st, e); w.feed(self.entries(st))
        path = g("path"); seen = []
        if w.path is not None and path is not None:
            at = ZERO
            for k, nm in enumerate(w.path):
                if k:
                    seen.append(e.read(st, add(path, at), 1)); at = addc(at, 1)
                seen.append(e.read(st, add(path, at), 1)); at = add(at, nm.size)
            seen.append(e.read(st, add(path, at), 1))
        self.log(st, "visit", more, err, g("dir_end"), g("entry.inode"), g("entry.name_size"), g("entry.type"), *[st.norm(x) if x is not None else None for x in seen])

class Walk:
    """what a traversal should do, replayed over what it was seen to do"""
    def __init__(self, m, st, e, bad=None):
        self.m = m; self.st = st; self.e = e; self.bad = bad or (lambda *a: None)
        self.stack = []; self.pend = self.gotten = self.want = self.path = None; self.done = self.failed = None; self.steps = 0; self.block = self.start = None
    def eq(self, a, b):
        """False only when they surely differ"""
        return a is None or b is None or a == b or self.st.ev(("eq", self.st.norm(sub(a, b)))) is not False
    def other(self, a, b):
        """different terms of the same kind: another directory, another entry"""
        if a is None or b is None:
            return False
        d = self.st.norm(sub(a, b))
        if d == ZERO:
            return False
        return self.st.ev(("eq", d)) is False or all(ATOMS[i].kind in ("D", "M", "P") and not isinstance(ATOMS[i].args, str) for i, _ in d[1])
    def names(self, last=None):
        r = [n for _, _, n in self.stack[1:]] + ([last] if last is not None else [])
        return None if None in r else r
    def feed(self, ev):
        for v in ev:
            getattr(self, "on_" + v[2], lambda *a: None)(*v[3:])
        return self
    def on_opened(self, err):
        self.opened = True
    def on_get(self, iid):
        if not self.stack:
            self.block = iid; self.gotten = iid; return
        if self.pend is None:
            self.bad("fetch", "a traversal fetches an object that is not the directory it last reported"); return
        if self.other(iid, self.pend.inode):
            self.bad("fetch", "a traversal descends into another object than the directory it reported")
        self.gotten = iid
    def on_open(self, b, at):
        if self.st.ev(("eq", self.st.norm(at))) is False:
            self.bad("start", "a traversal does not begin a directory at its first entry")
        if not self.stack:
            if self.other(b, self.m.block_of(self.gotten) if self.gotten is not None else self.start):
                self.bad("start", "a traversal does not start in the directory it was given")
            self.stack.append([b, ZERO, None]); return
        if self.pend is None:
            self.bad("descend", "a traversal enters a directory that it did not just report, or was told to leave out"); 
            self.stack.append([b, ZERO, None]); return
        if self.gotten is None or self.other(b, self.m.block_of(self.gotten)):
            self.bad("descend", "a traversal enters another directory than the one it reported")
        self.stack.append([b, ZERO, self.pend]); self.pend = self.gotten = None
    def on_next(self, blk, pos):
        if self.want is not None:
            self.bad("skipped", "a traversal goes on without reporting what it read")
        if self.pend is not None:
            self.bad("undescended", "a traversal goes on without visiting what is below a directory it reported"); self.pend = None
        if not self.stack:
            self.bad("after", "a traversal reads on after its end"); return
        b, p, _ = self.stack[-1]
        if self.other(blk, b):
            self.bad("level", "a traversal goes on in another directory than the one it is in")
        elif self.other(pos, p):
            self.bad("place", "a traversal goes on at another place of the directory than the entry after the last one")
    def on_entry(self, blk, pos, kind):
        if not self.stack:
            return
        at = Here(blk, pos, kind[0])
        self.stack[-1][1] = at.next_offset
        self.want = ("entry", at); self.path = self.names(at)
        self.pend = at if kind == ONE else None
    def on_end(self):
        if not self.stack:
            return
        top = self.stack.pop()
        self.want = ("end",) if self.stack else ("done",)
        self.path = self.names(top[2]) if self.stack and top[2] is not None else None
    def on_fails(self, *what):
        self.want = ("error",)
    def on_prune(self):
        self.pend = None
    def on_visit(self, more, err, dend, inode, size, kind, *path):
        ev = lambda x: self.st.ev(("eq", self.st.norm(x)))
        w = self.want; self.want = None; self.steps += 1
        if w is None:
            w = ("error",) if self.failed else ("done",) if self.done else None
        if w is None:
            self.bad("nothing", "a step of a traversal reports something without having read anything"); return
        yes, good = ev(more), ev(err)
        if w[0] == "error":
            self.failed = True
            if yes is False or good is True:
                self.bad("error", "a step of a traversal does not report that reading failed")
            return
        if w[0] == "done":
            self.done = True
            if yes is False:
                self.bad("finish", "a traversal goes on after everything was reported")
            elif good is False:
                self.bad("finish", "a traversal ends in an error after everything was reported")
            return
        if yes is True:
            self.bad("lost", "a traversal stops although it read %s" % ("an entry" if w[0] == "entry" else "the end of a directory that is not the first")); self.done = True; return
        if good is False:
            self.bad("lost", "a step of a traversal reports an error though nothing failed")
        end = ev(dend) if dend is not None else None
        if w[0] == "entry":
            if end is False:
                self.bad("kind", "a traversal reports an entry as the end of a directory")
            for got, p in ((inode, "inode"), (size, "name_size"), (kind, "type")):
                if self.other(got, getattr(w[1], p)):
                    self.bad("entry", "the entry a traversal reports is not the one it read")
        elif end is True:
            self.bad("kind", "a traversal reports the end of a directory as an entry")
        if path and self.path is not None:
            exp = []
            for k, nm in enumerate(self.path):
                if k:
                    exp.append(C(47))
                exp.append(nm)
            exp.append(ZERO)
            for x, y in zip(path, exp):
                if x is None:
                    continue
                if isinstance(y, Here):
                    c = content(x)
                    wrong = not x[1] or c is not None and (c[1] != ZERO or c[0] != addc(add(y.blk, y.pos), 1 << 51))
                else:
                    wrong = not x[1] and x != y or content(x) is not None
                if wrong:
                    self.bad("path", "the path a traversal reports is not that of %s" % ("the entry" if w[0] == "entry" else "the directory that ended")); break

class WalkLab(DirLab):
    def __init__(self, ctx, model, peel=6, **kw):
        self.ctx = ctx; self.m = model; self.m.L = self
        self.e = ctx.load(models=self.m, clients=("traverse.c",), peel=peel, MAXB=4000, MAXX=4000, eager=False, markfacts=True, **kw)
        self.wrap(); self.nq = 0; self.skipped = []; self.done = []; self.statics = ()

class LongHere(Here):
    size = property(lambda self: C(256))
    name_size = size

class LongNames(Tree):
    """every entry is a directory with a name of the greatest length, and nothing fails"""
    here = LongHere; kinds = (1,)
    nofail = ok = property(lambda self: True, lambda self, v: None)
    def x_sqfs_dir_next(self, e, st, ins, args):
        return super().x_sqfs_dir_next(e, st, ins, args)[:1]
    def x_lsq_visit(self, e, st, ins, args):
        self.log(st, "visit", st.norm(args[0]))

def long_names(ctx):
    """what a traversal does with its path when names are long: the writes that go beyond it whatever else holds"""
    L = WalkLab(ctx, LongNames(), 30, inline=8)
    if not all(ctx.defined(n) for n in ("sqfs_traverse_next", "sqfs_traverse_open_inode", "sqfs_inode_get", "sqfs_dir_open", "sqfs_dir_next")):
        return 0
    guard(L, lambda L: L.query("tv_long", lambda e, s, q: True, opaque=BELOW))
    for f in L.e.findings.values():
        if f.kind == "oob":
            ctx.finding(f)
    return L.e.stats.get("bounds", 0)

BELOW = ("sqfs_inode_get", "sqfs_dir_open", "sqfs_dir_next", "lsq_visit", "lsq_opened", "lsq_pruned")

def walks(L, fn):
    ctx = L.ctx; m = L.m; e = L.e
    a = [V(i) for i in e.ptypes(ctx.prog.fns[fn])]
    n = steps = 0; at = ctx.prog.fns["sqfs_traverse_next"]
    for x in L.query(fn, lambda e, s, q: True, opaque=BELOW):
        ev = m.entries(x); s = state_of(x)
        n += 1
        def bad(key, msg):
            ctx.violation(key, msg, "sqfs_traverse_next", (at.file, at.line), x.trace)
        w = Walk(m, s, e, bad)
        o = L.off("sqfs_inode", "xtra.dir.start_block")
        w.start = e.read(s, addc(a[1], o[0]), o[1]) if fn != "tv_id" else None
        op = [v for v in ev if v[2] == "opened"]
        if not op:
            continue
        first = ev[:ev.index(op[0])]
        if any(v[2] == "fails" for v in first):
            if s.ev(("eq", s.norm(op[0][3]))) is True:
                bad("open", "a traversal starts although its first directory cannot be opened")
            continue
        if fn == "tv_id" and not any(v[2] == "get" and not w.other(v[3], a[1]) for v in first):
            bad("start", "a traversal does not start at the object it was given")
        w.feed(ev); steps += w.steps
    return n, steps

@rule("C32")
def c32(ctx):
    L = WalkLab(ctx, Tree())
    ctx.need("sqfs_traverse_next", "sqfs_traverse_open", "sqfs_traverse_open_inode", "sqfs_traverse_prune", "sqfs_inode_get", "sqfs_dir_open", "sqfs_dir_next")
    ctx.cov["walks"] = ctx.cov["steps"] = 0
    for fn in ("tv_inode", "tv_id", "tv_prune") + (("tv_deep",) if ctx.tier == "thorough" else ()):
        def one(L):
            n, k = walks(L, fn)
            ctx.cov["walks"] += n; ctx.cov["steps"] += k
        guard(L, one)
    ctx.cov["queries"] = L.nq; ctx.cov["groups_skipped"] = len(L.skipped)
    ctx.samples = ["%s: %d exits" % (f, n) for f, w, n in L.done] + ["skipped " + s for s in L.skipped]
    return ("with fetching an inode, opening a directory and stepping through one as things that deliver unknown content or fail, every abstract path of small programs over the "
            "traversal (open by inode or number, several steps, prune) is replayed against what a traversal must do: start at the first entry of the given directory, report every "
            "entry read once and as it was read, descend exactly into the directories just reported and not pruned, go on in each directory where it was, report the end of each "
            "directory but the first, finish and stay finished, report failures and stay failed, and give the path made of the names from the start (bytes at name starts, "
            "separators and the end compared)")
