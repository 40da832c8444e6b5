"""C28: a lookup finds a name if and only if the directory has it; C32: a traversal visits everything once."""
from rules_extract import *

def D(tok, off, n, lo=0, hi=None, ptr=False):
    return V(mk("D", (tok.id, C(off), n), lo, (1 << (8 * n)) - 1 if hi is None else hi, ptr))

class At:
    """what a step through a directory that stands at byte `pos` delivers"""
    def __init__(self, pos):
        self.pos = pos
        self.tok = mk("OP", ("stream", addc(pos, 1 << 50))); self.name = mk("OP", ("stream", addc(pos, 1 << 51)))
    size = property(lambda self: addc(D(self.tok, 0, 1), 1))
    type = property(lambda self: D(self.tok, 1, 1, 0, 14))
    inode = property(lambda self: D(self.tok, 8, 8, 0, INF))
    inode_number = property(lambda self: D(self.tok, 16, 4))
    next_offset = property(lambda self: add(self.pos, addc(self.size, 8)))
    offset = property(lambda self: self.pos)
    name_size = size
    def state(self):
        return (D(self.tok, 24, 8, 0, INF), D(self.tok, 32, 4, 0, 8191), self.next_offset, D(self.tok, 36, 4))

class Directory(Extraction):
    """reading directory metadata and stepping through a directory, as things that deliver unknown data or fail"""
    STATE = ("cur.block", "cur.offset", "offset", "header.count")
    def err(self, e, ins, k):
        return self.F(e, ins, k, 1, 4)
    def fld(self, struct, path):
        return self.L.off(struct, path)
    def put(self, e, st, base, struct, path, v):
        o = self.fld(struct, path)
        if o:
            e.write(st, addc(base, o[0]), o[1], v)
    def get(self, e, st, base, struct, path):
        o = self.fld(struct, path)
        return st.norm(e.read(st, addc(base, o[0]), o[1])) if o else None
    def x_sqfs_md_read(self, e, st, ins, args):
        fs, cur, buf, n = args[:4]
        bad = self.other(e, st, ins, self.err(e, ins, "mderr"), "read")
        n = st.norm(n)
        blk = st.norm(e.read(st, cur, 8)); off = st.norm(e.read(st, addc(cur, 8), 8))
        skip = st.ev(("eq", st.norm(buf)))
        if skip is not True:
            b, boff = split(st.norm(buf))
            if b is not None:
                e.write_region(st, buf, e.zx(st, n, 64) if st.lb(n) >= 0 else n, ("D", mk("OP", ("stream", blk)).id, sub(boff, off)))
        self.log(st, "md", ZERO, blk, off, n, skip is True)
        e.write(st, addc(cur, 8), 8, add(off, n))
        self.ret(st, ins, ZERO)
        return [st] + bad
    def where(self, e, st, d):
        return tuple(self.get(e, st, d, "sqfs_dir", p) for p in self.STATE)
    def x_sqfs_dir_next(self, e, st, ins, args):
        fs, d, ent, err = args[:4]
        d = st.norm(d); ent = st.norm(ent)
        w = self.where(e, st, d)
        self.log(st, "next", d, *w)
        at = At(w[2])
        s2 = st.copy()
        nm = s2.norm(e.read(s2, addc(ent, self.fld("sqfs_dir_entry", "name")[0]), 8, True))
        for p in ("offset", "next_offset", "type", "name_size", "inode", "inode_number"):
            self.put(e, s2, ent, "sqfs_dir_entry", p, getattr(at, p))
        if s2.ev(("eq", nm)) is not True and split(nm)[0] is not None:
            e.write_region(s2, nm, at.size, ("D", at.name.id, split(nm)[1]))
        self.log(s2, "entry", w[2], ent)
        for p, v in zip(self.STATE, at.state()):
            self.put(e, s2, d, "sqfs_dir", p, v)
        e.write(s2, err, 4, ZERO); self.ret(s2, ins, ONE)
        s3 = st.copy()
        e.write(s3, err, 4, self.err(e, ins, "nexterr")); self.ret(s3, ins, ZERO); self.log(s3, "fails", "next")
        self.note(s3, e, ins, "the directory cannot be read")
        e.write(st, err, 4, ZERO); self.ret(st, ins, ZERO); self.log(st, "end")
        return [s2, s3, st]
    def order(self, e, st, ins, args):
        a, b, n = st.norm(args[0]), st.norm(args[1]), st.norm(args[2])
        out = []
        ca, cb = st.norm(e.read(st, a, 1)), st.norm(e.read(st, b, 1))
        for sg in (-1, 0, 1):
            s = st.copy()
            self.log(s, "cmp", a, b, ca, cb, n, C(sg))
            self.ret(s, ins, C(sg) if not sg else self.F(e, ins, "cmp+", 1, 255) if sg > 0 else neg(self.F(e, ins, "cmp-", 1, 255)))
            out.append(s)
        return out
    x_strncmp = x_memcmp = order
    x_strdup = Models.x_strdup; x_stat = Models.extern
    def x_strcmp(self, e, st, ins, args):
        self.log(st, "odd")
        return Models.extern(self, e, st, ins, "strcmp", args)
    x_strcoll = x_strcmp

def content(v):
    """the recorded byte that a value is: (what is recorded there, offset)"""
    a = single(v)
    if a is None or a.kind != "D" or not isinstance(a.args[0], int):
        return None
    t = ATOMS[a.args[0]]
    return (t.args[1], a.args[1]) if t.kind == "OP" and t.args[0] == "stream" else None

class DirLab(Lab):
    optional = ()
    def __init__(self, ctx, model, peel=5):
        self.ctx = ctx; self.m = model; self.m.L = self
        self.e = ctx.load(models=self.m, peel=peel, MAXB=4000, MAXX=4000, eager=False, markfacts=True)
        self.wrap(); self.nq = 0; self.skipped = []; self.done = []; self.statics = ()

LOW = ("sqfs_md_read", "sqfs_dir_next")

def same(L, x, got, want):
    """do the terms agree wherever this path goes?"""
    n = 0
    for seed in range(6):
        env = Env(seed + 1, (0, 1, 2)[seed % 3])
        try:
            env.pin(); env.steer(x); env.memo = {}
            if holds(env, x) is False:
                continue
            for g, w in zip(got, want):
                if g is not None and M64(env.val(g) - w(env)) != 0:
                    return False
            n += 1
        except Unknown:
            continue
    return True if n else None

class Index:
    """the entries of a directory index, as they lie in the metadata that follows the inode"""
    def __init__(self, L, inode, n):
        f = lambda p: L.off("squashfs_dir_index", p)
        o = L.off("sqfs_inode", "next.block"), L.off("sqfs_inode", "next.offset")
        e = L.e; s = e_state()
        blk = e.read(s, addc(inode, o[0][0]), o[0][1]); off = e.read(s, addc(inode, o[1][0]), o[1][1])
        self.blk = blk; self.tok = mk("OP", ("stream", blk)); self.head = L.ctx.prog.dis["squashfs_dir_index"]["size"]
        self.at = []; self.size = []; self.names = []; self.index = []; self.block = []
        for k in range(n):
            g = lambda p: V(mk("D", (self.tok.id, addc(off, f(p)[0]), f(p)[1]), 0, (1 << (8 * f(p)[1])) - 1))
            self.at.append(off); self.size.append(e.zx(s, addc(g("size"), 1), 32)); self.index.append(g("index")); self.block.append(g("start_block"))
            off = addc(off, self.head); self.names.append(off)
            off = add(off, self.size[-1])

def e_state():
    from state import St
    return St()

def start_of(L, x, ix, inode, fs, at, allowed, bad):
    """where the scan starts: at the beginning of the directory or at an index entry that does not lie beyond what is sought"""
    e = L.e; s = state_of(x); o = L.off
    if any(t is None for t in at):
        return
    def ld(base, struct, path):
        f = o(struct, path)
        return lambda env: env.mem(env.val(base) + f[0], f[1])
    def table(env):
        return env.mem(env.mem(env.val(fs) + o("sqfs", "sb")[0], 8, True) + o("squashfs_super_block", "directory_table_start")[0], 8)
    b0 = ld(inode, "sqfs_inode", "xtra.dir.start_block"); o0 = ld(inode, "sqfs_inode", "xtra.dir.offset")
    cands = [(-1, lambda env: M64(b0(env) + table(env)), lambda env: o0(env), lambda env: 0),
             (-1, lambda env: M64(b0(env) + table(env)), lambda env: o0(env) % 8192, lambda env: 0)]
    for j in range(len(ix.at)):
        cands.append((j, lambda env, j=j: M64(env.val(ix.block[j]) + table(env)), lambda env, j=j: (o0(env) + env.val(ix.index[j])) % 8192,
                      lambda env, j=j: env.val(ix.index[j])))
    hit = []; near = False
    for j, B, O, F in cands:
        r = same(L, x, at[:3], (B, O, F))
        if r is None:
            return
        if r:
            hit.append(j)
        elif same(L, x, (at[0], at[2]), (B, F)):
            near = True
    if not hit:
        bad("start", "the scan of a directory starts at a place that is neither its beginning nor what an index entry says" + (" (offset within the block)" if near else ""), x)
    elif not allowed(max(hit)):
        bad("beyond", "the scan of a directory starts at an index entry that lies beyond what is looked for", x)
    elif at[3] is not None and s.ev(("eq", at[3])) is False:
        bad("header", "the scan of a directory starts in the middle of a run of entries", x)

def below(s, p, q):
    return s.le0(addc(sub(p, q), 1))
def equal(s, p, q):
    d = s.norm(sub(p, q))
    return s.ev(("eq", d)) is True or s.le0(d) and s.le0(neg(d))
def unlike(s, p, q):
    d = s.norm(sub(p, q))
    if s.ev(("eq", d)) is False or below(s, p, q) or below(s, q, p):
        return True
    s2 = s.copy()
    return s2.add_le(d) is False or s2.add_le(neg(d)) is False

MOST = 6

def lookups(L):
    ctx = L.ctx; m = L.m; e = L.e; fn = "sqfs_dir_lookup"
    a = [V(i) for i in e.ptypes(ctx.prog.fns[fn])]
    fs, inode, name, nlen, ent, found = a[:6]
    ix = Index(L, inode, MOST)
    def setup(e, s, q):
        s.add_le(sub(ONE, nlen)); s.add_le(addc(nlen, -256))
        e.write(s, errno_addr(), 4, C(17))
        return True
    n = nf = 0; kinds = {}
    def bad(key, msg, x):
        ctx.violation("lookup:" + key, msg, fn, x.loc, x.trace)
    for x in L.query(fn, setup, opaque=LOW):
        ev = m.entries(x); s = state_of(x)
        if x.ret is None or any(v[2] == "odd" for v in ev):
            continue
        n += 1
        ok = s.ev(("eq", x.ret))
        nexts = [v for v in ev if v[2] == "next"]
        if any(v[2] == "fails" for v in ev):
            if ok is True:
                bad("error", "a lookup succeeds although reading the directory failed", x)
            continue
        ents = [v for v in ev if v[2] == "entry"]
        # comparisons with the name that is looked for, by what they compare it with
        cmps = {}; lost = False
        for v in ev:
            if v[2] == "cmp":
                p, q, cp, cq, ln, sg = v[3:9]
                if p == name and q != name:
                    c, sg = content(cq), -sg[0]
                elif q == name and p != name:
                    c, sg = content(cp), sg[0]
                else:
                    lost = True; continue
                if c is None:
                    lost = True; continue
                cmps.setdefault(c, []).append((sg, ln))
        if lost:
            continue
        for j, v in enumerate([v for v in ev if v[2] == "md"]):
            want = [(ix.blk, ix.at[j // 2], C(ix.head)), (ix.blk, ix.names[j // 2], ix.size[j // 2])][j % 2] if j // 2 < MOST else None
            if want and any(s.norm(sub(g, w)) != ZERO for g, w in zip((v[4], v[5]), want[:2])):
                if same(L, x, (v[4], v[5]), [lambda env, w=w: env.val(w) for w in want[:2]]) is False:
                    bad("index", "the directory index is read from the wrong place", x)
                break
        if nexts:
            def allowed(j):
                for q in range(j + 1):
                    c = cmps.get((ix.blk, ix.names[q]))
                    if not c:
                        return True                           # compared in a way that is not followed
                    sg, ln = c[-1]
                    if sg > 0:
                        return False
                    if sg == 0 and not s.le0(sub(ix.size[q], nlen)) and s.copy().add_le(addc(sub(nlen, ix.size[q]), 1)) is not False:
                        return False
                return True
            start_of(L, x, ix, inode, fs, nexts[0][4:8], allowed, bad)
            for p, q in zip(nexts, nexts[1:]):
                if q[3] != p[3] or any(g is not None and g != t for g, t in zip(q[4:8], At(p[6]).state())):
                    bad("moved", "the scan of a directory does not go on where it was", x); break
        if ok is not True:
            mds = sum(1 for v in ev if v[2] == "md")
            if ok is False and nexts or ok is False and mds and all(s.copy().add_le(addc(z, -256)) is not False for z in ix.size[:(mds + 1) // 2]):
                bad("refused", "a lookup fails although everything could be read and no name is too long", x)
            continue
        nf += 1
        f = s.norm(e.read(s, found, 2))
        yes = s.ev(("eq", f))
        def sure(v):
            """is this entry the one (1), another (0), or was it compared in a way that is not followed (None)?"""
            at = At(v[3])
            if unlike(s, at.size, nlen):
                return 0
            c = cmps.get((addc(v[3], 1 << 51), ZERO))
            if not c:
                return None
            if any(sg for sg, _ in c):
                return 0
            if not any(equal(s, ln, nlen) or equal(s, ln, at.size) for _, ln in c):
                return None
            return 1 if equal(s, at.size, nlen) else -1
        if yes is False:
            if not ents:
                bad("found", "a lookup reports an entry of a directory in which it saw none", x); continue
            r = sure(ents[-1])
            if r == 0:
                bad("found", "a lookup reports an entry whose name is a different one", x)
            elif r == -1:
                bad("longer", "a lookup reports an entry whose name only begins with the one looked for", x)
            elif r == 1:
                at = At(ents[-1][3])
                for p in ("inode", "type", "inode_number", "name_size"):
                    g = m.get(e, s, s.norm(ent), "sqfs_dir_entry", p)
                    if g is not None and g != s.norm(getattr(at, p)) and same(L, x, (g,), (lambda env: env.val(getattr(at, p)),)) is False:
                        bad("which", "a lookup yields another entry than the one it found", x); break
        elif yes is True:
            rs = [sure(v) for v in ents]
            if any(r in (1, -1) for r in rs):
                bad("absent", "a lookup reports that a name is absent although an entry with that name was seen", x)
            elif not nexts:
                bad("unseen", "a lookup reports that a name is absent without looking at any entry", x)
            elif ents and not any(v[2] == "end" for v in ev) and None not in rs:
                at = At(ents[-1][3]); c = cmps.get((addc(ents[-1][3], 1 << 51), ZERO))
                if not c or all(sg < 0 for sg, _ in c) or all(sg == 0 and not equal(s, ln, nlen) for sg, ln in c) and not below(s, nlen, at.size):
                    bad("early", "a lookup gives up at an entry that does not sort after the name", x)
        kinds[(yes, len(ents))] = kinds.get((yes, len(ents)), 0) + 1
    ctx.cov["lookup_paths"] = n; ctx.cov["lookup_answers"] = nf
    ctx.cov["lookup_found"] = sum(v for k, v in kinds.items() if k[0] is False)

def seeks_in(L):
    """opening a directory at an offset"""
    ctx = L.ctx; m = L.m; e = L.e; fn = "sqfs_dir_open"
    a = [V(i) for i in e.ptypes(ctx.prog.fns[fn])]
    fs, inode, d, want = a[:4]
    n = 0; ix = Index(L, inode, MOST)
    def bad(key, msg, x):
        ctx.violation("seek:" + key, msg, fn, x.loc, x.trace)
    def setup(e, s, q):
        s.add_le(neg(want)); s.add_le(addc(want, -(1 << 30)))
        return True
    for x in L.query(fn, setup, opaque=LOW):
        ev = m.entries(x); s = state_of(x)
        if x.ret is None:
            continue
        n += 1
        ok = s.ev(("eq", x.ret))
        fails = any(v[2] == "fails" for v in ev)
        if fails and ok is True:
            bad("error", "a directory is opened at an offset although reading it failed", x)
        if fails:
            continue
        nexts = [v for v in ev if v[2] == "next"]
        def allowed(j):
            return all(s.copy().add_le(addc(sub(want, ix.index[q]), 1)) is False for q in range(j + 1))
        at = nexts[0][4:8] if nexts else m.where(e, s, d) if ok is True else None
        if at:
            start_of(L, x, ix, inode, fs, at, allowed, bad)
        if ok is True:
            here = m.where(e, s, d)[2]
            if here is not None and not equal(s, here, want):
                bad("where", "a directory is opened at another offset than the one asked for", x)
    ctx.cov["seek_paths"] = n

@rule("C28")
def c28(ctx):
    L = DirLab(ctx, Directory(), 4 if ctx.tier == "thorough" else 3)
    ctx.need("sqfs_dir_lookup", "sqfs_dir_open", *LOW)
    for f in (lookups, seeks_in):
        guard(L, f)
    ctx.cov["queries"] = L.nq; ctx.cov["groups_skipped"] = len(L.skipped)
    ctx.samples = ["%s: %d exits" % (f, n) for f, w, n in L.done] + ["skipped " + s for s in L.skipped]
    return ("with the metadata reader and the step to the next entry as things that deliver unknown recorded data or fail, and each comparison of names coming out "
            "less, equal or greater: a scan starts at the beginning of the directory or at an index entry shown not to lie beyond what is sought, goes on from entry to entry, "
            "answers 'found' exactly with an entry compared equal and of equal length (and yields that entry), answers 'absent' only at the end or at an entry that sorts after "
            "the name, and fails when reading fails; opening at an offset succeeds exactly there")
