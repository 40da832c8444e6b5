"""C34: the handle table holds exactly the open handles."""
from rules_extract import *
import rules_walk

class Handles(Extraction):
    """lookups that find or fail, a system that hands out the numbers it is told to"""
    mode = 0o100644; phase = 0
    nofail = property(lambda self: self.phase == 0, lambda self, v: None)
    ok = property(lambda self: self.phase == 0, lambda self, v: None)
    x_strdup = Models.x_strdup; x_stat = Models.extern
    x_pthread_mutex_lock = Models.x_pthread_mutex_lock
    def __init__(self):
        super().__init__()
        self.aborts = {}
    def inode(self, e, st, p):
        e.write_region(st, p, C(e.p.dis["sqfs_inode"]["size"]), ("z",))
        self.put(e, st, p, "sqfs_inode", "base.mode", C(self.mode))
    def put(self, e, st, p, rec, path, v):
        o = self.L.off(rec, path)
        e.write(st, addc(p, o[0]), o[1], v)
    def x_sqfs_inode_get(self, e, st, ins, args):
        bad = self.other(e, st, ins, ONE, "inode_get")
        self.inode(e, st, st.norm(args[1])); self.ret(st, ins, ZERO)
        return [st] + bad
    def x_sqfs_lookup_path_inner(self, e, st, ins, args):
        bad = self.other(e, st, ins, ONE, "lookup")
        if self.phase:
            s2 = st.copy(); e.write(s2, args[3], 2, ZERO); self.ret(s2, ins, ZERO); self.log(s2, "fails", "lookup"); bad.append(s2)
        self.inode(e, st, st.norm(args[1])); e.write(st, args[3], 2, ONE); self.ret(st, ins, ZERO)
        return [st] + bad
    def x_sqfs_stat(self, e, st, ins, args):
        bad = self.other(e, st, ins, ONE, "stat")
        e.write_region(st, args[2], C(e.p.dis["stat"]["size"]), ("z",))
        e.write(st, addc(args[2], STAT["mode"][0]), 4, C(self.mode)); self.ret(st, ins, ZERO)
        return [st] + bad
    def x_sqfs_dir_open(self, e, st, ins, args):
        bad = self.other(e, st, ins, ONE, "dir_open")
        e.write_region(st, args[2], C(e.p.dis["sqfs_dir"]["size"]), ("z",)); self.ret(st, ins, ZERO)
        return [st] + bad
    def x_dup(self, e, st, ins, args):
        bad = self.other(e, st, ins, C(-1), "dup")
        n = [m[3] for m in self.entries(st) if m[2] == "number"]
        self.ret(st, ins, n[-1] if n else C(9)); self.log(st, "took", n[-1] if n else C(9))
        return [st] + bad
    def x_close(self, e, st, ins, args):
        self.log(st, "gave", st.norm(args[0])); self.ret(st, ins, ZERO)
    def x___assert_fail(self, e, st, ins, args):
        self.aborts[e.loc(ins)] = (e.cur.name, st.trace)
        return []
    # ---- what the program sees
    def x_lsq_number(self, e, st, ins, args):
        self.log(st, "number", st.norm(args[0]))
    def x_lsq_opened(self, e, st, ins, args):
        self.log(st, "opened", st.norm(args[0]), st.norm(args[1]))
    def x_lsq_closed(self, e, st, ins, args):
        self.log(st, "closed", st.norm(args[0]), st.norm(args[1]))
    def x_lsq_at(self, e, st, ins, args):
        self.log(st, "at", st.norm(args[0]), st.norm(args[1]))
    def x_lsq_found(self, e, st, ins, args):
        self.log(st, "found", *[st.norm(a) for a in args[:3]])

class Many(Handles, rules_walk.LongNames):
    """a directory without end"""
    mode = 0o40755

def many_entries(ctx):
    """what a stream does with its entries when there are many, with long names"""
    L = HandleLab(ctx, Many())
    if not all(ctx.defined(n) for n in ("squash_opendir", "squash_readdir", "squash_closedir", "squash_rewinddir", "sqfs_dir_next")):
        return 0
    guard(L, lambda L: L.query("hd_many", None, opaque=OPAQUE + ("sqfs_dir_next",)))
    for f in L.e.findings.values():
        if f.kind in ("oob", "uaf", "dfree", "nullc"):
            ctx.finding(f)
    return L.e.stats.get("bounds", 0)

class Scan(Many):
    """a stream that ends after so many entries"""
    length = 2060
    def x_squash_opendir(self, e, st, ins, args):
        self.ret(st, ins, V(mk("OP", ("draw", "stream"), 4096, INF, True)))
    def x_squash_closedir(self, e, st, ins, args):
        self.ret(st, ins, ZERO)
    def x_squash_readdir(self, e, st, ins, args):
        n = next((m[1] for m in st.marks if m[0] == "nread"), 0)
        st.marks = frozenset(m for m in st.marks if m[0] != "nread") | {("nread", n + 1)}
        self.ret(st, ins, ZERO if n >= self.length else V(mk("OP", ("draw", "dirent"), 4096, INF, True)))

def many_scanned(ctx):
    """what a scan does with a list that outgrows its first room"""
    L = HandleLab(ctx, Scan(), Scan.length + 40)
    if not all(ctx.defined(n) for n in ("squash_scandir", "squash_readdir", "squash_opendir")):
        return 0
    guard(L, lambda L: L.query("sc_many", None, opaque=("squash_opendir", "squash_readdir", "squash_closedir")))
    for f in L.e.findings.values():
        if f.kind in ("oob", "uaf", "dfree", "nullc"):
            ctx.finding(f)
    return L.e.stats.get("bounds", 0)

OPAQUE = ("sqfs_inode_get", "sqfs_lookup_path_inner", "sqfs_stat", "sqfs_dir_open")

class HandleLab(Lab):
    def __init__(self, ctx, model=None, peel=60):
        self.ctx = ctx; self.m = model or Handles(); self.m.L = self
        self.e = ctx.load(models=self.m, clients=("handles.c",), peel=peel, MAXB=4000, MAXX=4000, eager=False, markfacts=True, inline=8)
        self.wrap(); self.nq = 0; self.skipped = []; self.done = []
        self.statics = ("squash_global_fdtable",)

def sure(s, v):
    """True: surely zero; False: surely not"""
    return s.ev(("eq", s.norm(v)))

def table(L, fn, mode, phase):
    ctx = L.ctx; m = L.m; f = ctx.prog.fns[fn]
    m.mode = mode; m.phase = phase
    start = ctx.prog.fns["squash_open_inner" if ctx.defined("squash_open_inner") else "squash_open"]
    for x in L.query(fn, None, opaque=OPAQUE):
        s = state_of(x); held = {}; last = None; n = 0; fresh = None
        def bad(key, msg):
            ctx.violation(key, msg, last[0], (ctx.prog.fns[last[0]].file, ctx.prog.fns[last[0]].line), x.trace)
        failing = False
        for v in m.entries(x):
            k = v[2]
            if k == "number":
                failing = False
            elif k == "fails":
                failing = True
            elif k == "opened":
                last = ("squash_opendir" if fn.endswith(("dirs", "dirfails")) and v[4] != ZERO else "squash_open",)
                num = [w[3] for w in m.entries(x)[:v[1]] if w[2] == "number"][-1][0]
                r = sure(s, addc(v[3], 1))
                if r is True:
                    if not failing and not x.faults:
                        bad("refused", "an open fails although nothing it depends on failed")
                    continue
                if failing:
                    bad("error", "an open succeeds although something it depends on failed"); break
                if v[3] != C(num):
                    bad("number", "an open returns another number than the one it took from the system"); break
                held[num] = None; fresh = num; stream = v[4]
            elif k == "closed":
                last = ("squash_close",); num = v[3][0]; r = sure(s, v[4])
                if num in held:
                    if r is False:
                        bad("close", "closing an open handle fails")
                        break
                    del held[num]
                elif r is True:
                    bad("closed", "closing a number that names no open handle succeeds"); break
            elif k == "at":
                num = v[3][0]; p = v[4]; z = sure(s, p); n += 1; ctx.cov["looks"] += 1
                if num in held:
                    if z is True:
                        bad("lost", "an open handle is no longer known by its number"); break
                    if held[num] is None and z is False:
                        held[num] = p
                        if any(q == p for j, q in held.items() if j != num):
                            bad("shared", "two open handles are the same"); break
                    elif held[num] is not None and sure(s, sub(p, held[num])) is False:
                        bad("changed", "the handle behind a number changes while it stays open"); break
                elif z is False:
                    bad("stale", "a number that names no open handle has a handle"); break
                if fresh == num and last[0] == "squash_opendir":
                    fresh = None
            elif k == "found":
                ctx.cov["searches"] += 1
                if v[4] != ZERO and sure(s, v[4]) is True:
                    v = v[:4] + (ZERO,) + v[5:]
                want, got = v[4], v[5]
                if want == ZERO:
                    if sure(s, got) is False:
                        bad("anyone", "a search for an address that is no handle's finds a handle"); break
                elif sure(s, got) is True:
                    bad("hidden", "an open handle is not found by its address"); break
                elif sure(s, sub(got, want)) is False:
                    bad("other", "a search for the address of one handle finds another"); break
        ctx.cov["sequences"] += 1
    for loc, (g, tr) in m.aborts.items():
        ctx.violation("abort:%s" % g, "a call on an open handle ends in an assertion that does not hold", g, loc, tr)
    m.aborts.clear()
    for f in L.e.findings.values():
        if f.kind in ("uaf", "dfree", "badfree"):
            if f.loc and "clients/" in str(f.loc[0]):
                g = ctx.prog.fns["squash_vfd_file"]
                ctx.violation("gone:%s" % f.msg, "the handle behind a number is one that was released (%s)" % f.msg, "squash_vfd_file", (g.file, g.line), getattr(f, "trace", ()))
            else:
                ctx.finding(f)
    L.e.findings.clear()

@rule("C34")
def c34(ctx):
    L = HandleLab(ctx)
    ctx.need("squash_open", "squash_close", "squash_opendir", "squash_closedir", "squash_vfd_file", "squash_find_entry", "squash_dirfd")
    ctx.cov["looks"] = ctx.cov["searches"] = ctx.cov["sequences"] = 0
    reg, dr = 0o100644, 0o40755
    for fn, mode, phase in (("hd_order", reg, 0), ("hd_back", reg, 0), ("hd_back", dr, 0), ("hd_grow", reg, 0), ("hd_dirs", dr, 0), ("hd_fails", reg, 1), ("hd_dirfails", dr, 1)):
        guard(L, lambda L: table(L, fn, mode, phase))
    ctx.cov["queries"] = L.nq; ctx.cov["groups_skipped"] = len(L.skipped)
    ctx.samples = ["%s: %d exits" % (f, n) for f, w, n in L.done] + ["skipped " + s for s in L.skipped]
    return ("small programs that open, close, open streams and close streams, with numbers handed out as the system may hand them out, are analysed from the empty table, the library's functions "
            "in the caller's own state; after every step each number and each handle's address is looked up through the library, and the answers are compared with the set of handles that are open; "
            "in two of them every step of an open succeeds or fails. An assertion that a path reaches and does not satisfy is a violation as well.")
