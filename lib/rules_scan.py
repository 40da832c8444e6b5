"""C24: what a scan collects, returns and leaves allocated."""
from rules_extract import *

class Scan(Extraction):
    """a directory of up to three entries; each step of it may fail, and the caller's filter answers either way"""
    DIR = V(mk("OP", ("openeddir",), 4096, INF, True))
    ENT = V(mk("OP", ("theentry",), 4096, INF, True))
    most = 3
    def halloc(self, e, st, ins, size, how, dflt=("u",), extra=""):
        a = super().halloc(e, st, ins, size, how, dflt, extra)
        self.log(st, "alloc", V(a), size)
        return a
    x_strdup = Models.x_strdup; x_stat = Models.extern
    def x_squash_opendir(self, e, st, ins, args):
        bad = self.other(e, st, ins, ZERO, "opendir")
        self.log(st, "opendir")
        self.ret(st, ins, self.DIR)
        return [st] + bad
    def x_squash_readdir(self, e, st, ins, args):
        ev = self.entries(st); out = []
        k = sum(1 for m in ev if m[2] == "entry")
        if k < self.most:
            s2 = st.copy()
            t = mk("F", ("entry", k))
            e.write_region(s2, self.ENT, C(self.size_of), ("D", t.id, ZERO))
            self.log(s2, "entry", C(k))
            self.ret(s2, ins, self.ENT)
            out.append(s2)
        s3 = st.copy()
        self.seterr(e, s3, ins, 5); self.log(s3, "fails", "readdir"); self.ret(s3, ins, ZERO)
        self.note(s3, e, ins, "readdir fails")
        self.log(st, "end"); self.ret(st, ins, ZERO)
        return out + [s3, st]
    def x_squash_closedir(self, e, st, ins, args):
        self.log(st, "closedir", args[0])
        self.ret(st, ins, ZERO)
    def callback(self, e, st, ins, f):
        if len(ins["a"]) != 1:
            return super().callback(e, st, ins, f)
        p = st.norm(e.val(st, ins["a"][0]))
        v = e.read(st, p, 8)
        a = single(v)
        k = a.args[0] if a is not None and a.kind == "D" else -1
        k = ATOMS[k].args[1] if k >= 0 and ATOMS[k].kind == "F" and ATOMS[k].args[0] == "entry" else -1
        s2 = st.copy()
        e.write(st, errno_addr(), 4, C(22)); e.write(s2, errno_addr(), 4, C(22))     # it may leave errno as it likes
        self.log(st, "asked", C(k), ZERO); self.ret(st, ins, ZERO)
        self.log(s2, "asked", C(k), ONE)
        y = self.F(e, ins, "cb", -(1 << 31), (1 << 31) - 1); s2.add_ne(y); self.ret(s2, ins, y)
        return [st, s2]
    def x_qsort(self, e, st, ins, args):
        self.log(st, "sorted", args[0], args[1], args[2])

class Steps(Scan):
    """a directory of any size, loops solved to a fixed point: only the last step is remembered"""
    def log(self, st, *a):
        pass
    def last(self, st, *a):
        st.marks = frozenset(m for m in st.marks if m[0] != a[0]) | frozenset([a])
    def halloc(self, e, st, ins, size, how, dflt=("u",), extra=""):
        if how in ("malloc", "calloc", "strdup"):
            self.last(st, "kept", 1)
        return Models.halloc(self, e, st, ins, size, how, dflt, extra)
    def x_squash_readdir(self, e, st, ins, args):
        m = dict((x[0], x[1]) for x in st.marks if len(x) == 2)
        if m.get("at") == "entry" and m.get("kept") == 0 and m.get("said") != 0:
            self.missed.setdefault(e.loc(ins), st.trace)
        s2 = st.copy(); s3 = st.copy()
        t = mk("F", (e.ctx, ins["i"], e.stamp, "data"))
        e.write_region(s2, self.ENT, C(self.size_of), ("D", t.id, ZERO))
        self.last(s2, "at", "entry"); self.last(s2, "kept", 0); self.last(s2, "said", 1); self.ret(s2, ins, self.ENT)
        self.seterr(e, s3, ins, 5); self.last(s3, "at", "failure"); self.ret(s3, ins, ZERO)
        self.last(st, "at", "end"); self.ret(st, ins, ZERO)
        return [s2, s3, st]
    def callback(self, e, st, ins, f):
        if len(ins["a"]) != 1:
            return Models.callback(self, e, st, ins, f)
        s2 = st.copy()
        self.last(st, "said", 0); self.ret(st, ins, ZERO)
        y = self.F(e, ins, "cb", -(1 << 31), (1 << 31) - 1); s2.add_ne(y); self.ret(s2, ins, y)
        return [st, s2]

STREAM = ("squash_opendir", "squash_readdir", "squash_closedir")
FN = "squash_scandir"

def offsets(prog):
    """where the parts of an entry lie"""
    d = prog.dis["dirent"]
    return d["size"], [(m[0], m[1], m[2]) for m in d["members"]]

def begin(e, s, a):
    for x in a[:3]:
        if s.add_le(sub(C(4096), x)) is False:
            return False
    e.write(s, errno_addr(), 4, C(17))
    return True

class ScanLab(Lab):
    optional = (3, 4)
    def __init__(self, ctx):
        self.ctx = ctx; self.m = Scan(); self.m.L = self
        def onfree(e, st, p, ins, loc, chain):
            if not chain:
                self.m.log(st, "free", st.norm(p))
        self.e = ctx.load(models=self.m, peel=6, MAXB=4000, MAXX=4000, eager=False, markfacts=True, onfree=onfree)
        self.wrap(); self.nq = 0; self.skipped = []; self.done = []; self.statics = ()
        self.m.size_of = offsets(ctx.prog)[0]

def collected(L):
    ctx = L.ctx; m = L.m; e = L.e; ns = nf = 0
    def bad(key, msg, x):
        ctx.violation(key, msg, FN, x.loc, x.trace)
    sz, parts = offsets(ctx.prog)
    a = [V(i) for i in e.ptypes(ctx.prog.fns[FN])]
    for x in L.query(FN, begin, opaque=STREAM):
        ev = m.entries(x); s = state_of(x)
        if x.ret is None:
            continue
        allocs = [v[3] for v in ev if v[2] == "alloc"]
        freed = [v[3] for v in ev if v[2] == "free"]
        live = [p for p in allocs if p not in freed]
        fails = [v for v in ev if v[2] == "fails"]
        opened = any(v[2] == "opendir" for v in ev); closed = any(v[2] == "closedir" for v in ev)
        if opened and not closed:
            bad("open", "a scan leaves the directory it opened open", x)
        r = s.norm(x.ret)
        if s.le0(addc(r, 1)):
            nf += 1
            if live:
                bad("left", "a scan that fails leaves %d blocks allocated" % len(live), x)
            if opened and not fails and not x.faults:
                bad("fails", "a scan fails although nothing it depends on failed", x)
            continue
        if r[1]:
            continue                                  # a count that is not a number: not followed
        ns += 1
        if fails:
            bad("error:%s" % fails[0][3], "a scan succeeds although %s failed" % fails[0][3], x); continue
        if not any(v[2] == "end" for v in ev):
            bad("end", "a scan ends before the directory does", x); continue
        there = [v[3][0] for v in ev if v[2] == "entry"]
        said = {}
        for v in ev:
            if v[2] == "asked":
                said.setdefault(v[3][0], set()).add(v[4][0])
        if -1 in said or any(len(v) > 1 for v in said.values()):
            continue
        filt = s.ev(("eq", a[3]))
        want = [k for k in there if said.get(k, {1}) == {1}]
        if filt is not True:
            for k in there:
                if k not in said:
                    s2 = s.copy()
                    if s2.add_ne(a[3]) is not False:
                        bad("unasked", "a scan takes an entry without asking the filter", x); break
        if r[0] != len(want):
            bad("count", "a scan returns %d for %d selected entries" % (r[0], len(want)), x); continue
        arr = s.norm(e.read(s, a[2], 8, True))
        b, off = split(arr)
        if arr == ZERO and not want:
            continue
        if b is None or ATOMS[b].kind not in ("H", "M", "D"):
            continue
        if arr not in live:
            bad("array", "the array a scan returns cannot be freed (%s)" % ("it is freed already" if arr in freed else "it is no block of its own" if ATOMS[b].kind == "H" else "it was not set"), x); continue
        got = []; blocks = [arr]
        for j in range(len(want)):
            p = s.norm(e.read(s, addc(arr, 8 * j), 8, True))
            pb, po = split(p)
            if pb is None or ATOMS[pb].kind == "U":
                bad("entry", "element %d of the array a scan returns is not set" % j, x); break
            if ATOMS[pb].kind != "H" and p != m.ENT:
                got = None; break
            if p not in live or p in blocks:
                bad("block", "an entry that a scan returns cannot be freed on its own", x); got = None; break
            blocks.append(p)
            ks = set()
            for n, o, w in parts:
                v = single(s.norm(e.read(s, addc(p, o), min(w, 8) if w in (1, 2, 4, 8) else 1)))
                k = v.args[0] if v is not None and v.kind == "D" and isinstance(v.args[0], int) else None
                if v is not None and v.kind == "U":
                    bad("part:" + n, "%s of an entry that a scan returns is not set" % n, x); ks.add(None); break
                if k is None or ATOMS[k].kind != "F" or ATOMS[k].args[0] != "entry" or v.args[1] != C(o):
                    ks.add(None); break
                ks.add(ATOMS[k].args[1])
            if None in ks:
                got = None; break
            if len(ks) != 1:
                bad("mixed", "an entry that a scan returns is made of several", x); got = None; break
            got.append(ks.pop())
        else:
            if sorted(got) != sorted(want):
                bad("which", "a scan returns entries %s where %s are selected" % (sorted(got), sorted(want)), x)
            for p in live:
                if p not in blocks:
                    bad("lost", "a scan keeps a block allocated that it does not return", x)
            for v in ev:
                if v[2] == "sorted" and (v[3] != arr or v[4] != C(len(want)) or v[5] != C(8)):
                    bad("sorted", "a scan sorts something else than its entries", x)
    ctx.cov.update(successes_checked=ns, failures_checked=nf)

def anysize(L):
    """directories of any size: every entry that is not rejected is taken, and success means the end was reached"""
    ctx = L.ctx; m = Steps(); m.missed = {}; n = 0
    e = ctx.load(models=m, markfacts=True)
    m.L = L; m.size_of = offsets(ctx.prog)[0]; m.nofail = False
    e.opaque = {f for f in STREAM if ctx.defined(f)}
    orig = e.apply_exit
    def apply_exit(st, *a):
        # what a function it calls did last replaces what was done before
        mine = st.marks; st.marks = frozenset()
        r = orig(st, *a)
        new = {k[0] for k in st.marks}
        st.marks = st.marks | frozenset(k for k in mine if k[0] not in new)
        return r
    e.apply_exit = apply_exit
    q = e.query(FN, begin)
    for loc, tr in m.missed.items():
        ctx.violation("missed", "a scan goes on to the next entry without having taken one that was not rejected", FN, loc, tr)
    for x in q.exits if q else ():
        if x.lossy or x.ret is None:
            continue
        n += 1
        s = state_of(x)
        mk_ = dict((k[0], k[1]) for k in x.marks if len(k) == 2)
        if s.le0(addc(x.ret, 1)):
            continue
        if mk_.get("at") == "failure":
            ctx.violation("error:readdir", "a scan succeeds although reading the directory failed", FN, x.loc, x.trace)
        elif mk_.get("at") == "entry":
            ctx.violation("end", "a scan ends before the directory does", FN, x.loc, x.trace)
    ctx.cov["outcomes_of_any_size"] = n

def untold(L):
    """a scan that is not told what to scan, or where the result goes"""
    m = L.m; fn = FN
    for k, what in ((1, "without a name"), (2, "without a place for its result")):
        def setup(e, s, a):
            e.write(s, errno_addr(), 4, C(17))
            return s.assume(("eq", a[k])) and all(s.add_le(sub(C(4096), a[j])) for j in (0, 1, 2) if j != k)
        L.optional = (1, 2, 3, 4)
        try:
            xs = L.query(fn, setup, opaque=STREAM)
        finally:
            L.optional = type(L).optional
        for x in xs:
            s = state_of(x)
            if x.ret is None:
                continue
            if any(v[2] == "opendir" for v in m.entries(x)) and k == 1:
                L.ctx.violation("untold:%d" % k, "a scan %s goes ahead" % what, fn, x.loc, x.trace)
            elif s.le0(neg(s.norm(x.ret))):
                L.ctx.violation("untold:%d" % k, "a scan %s succeeds" % what, fn, x.loc, x.trace)
        if xs and not any(not x.faults and not any(v[2] == "fails" for v in m.entries(x)) for x in xs):
            f = L.ctx.prog.fns[fn]
            L.ctx.violation("untold:%d" % k, "a scan %s does not come back when nothing fails" % what, fn, (f.file, f.line))

@rule("C24")
def c24(ctx):
    L = ScanLab(ctx)
    ctx.need(FN, *STREAM)
    for f in (collected, anysize, untold):
        guard(L, f)
    ctx.cov["queries"] = L.nq + 1; ctx.cov["groups_skipped"] = len(L.skipped)
    ctx.samples = ["%s: %d exits" % (f, n) for f, w, n in L.done] + ["skipped " + s for s in L.skipped]
    return ("the scan is analysed over an abstract directory of up to three entries whose contents are unknown, with opening, each step of reading and each allocation "
            "as things that succeed or fail and the caller's filter answering either way. On every path: success requires that nothing failed and the end was reached, the count must be the "
            "number selected, the array and every element must be live blocks of their own that hold exactly the selected entries; on failure nothing logged as allocated may be unfreed. "
            "A second pass solves the loop to a fixed point for directories of any size: no entry may be left behind, and success is reached only from the end. A third: a scan without a name or a place for its result fails.")
