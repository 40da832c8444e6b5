"""C23: what extraction writes, returns, remembers and removes."""
from rules_behaviour import *

FD = 7
SINKS = ("fwrite", "write")

class Extraction(Models):
    """a file of unknown size behind a handle; every operation on the host is logged, and fails or not"""
    ok = False
    def __init__(self):
        super().__init__()
        self.aborts = {}
        self.S = V(mk("OP", ("draw", "filesize"), 0, 1 << 40))
    def entries(self, st):
        return sorted((m for m in st.marks if m[0] == "log"), key=lambda m: m[1])
    def log(self, st, *a):
        st.marks = st.marks | frozenset([("log", len(self.entries(st))) + a])
    def other(self, e, st, ins, v, *a, err=True):
        """the outcome in which the operation fails"""
        if self.ok:
            return []
        s2 = st.copy()
        self.ret(s2, ins, v)
        if err:
            self.seterr(e, s2, ins)
        self.log(s2, "fails", *a)
        self.note(s2, e, ins, "%s fails" % a[0])
        return [s2]
    # ---- the image
    def x_squash_open(self, e, st, ins, args):
        bad = self.other(e, st, ins, C(-1), "open")
        f = self.file(e, st)
        for path, v in (("node.xtra.reg.file_size", self.S), ("st.st_size", self.S), ("node.base.mode", C(0o100644)), ("st.st_mode", C(0o100644)), ("pos", ZERO)):
            o = self.L.off("squash_file", path)
            if o:
                e.write(st, addc(f, o[0]), o[1], v)
        self.ret(st, ins, C(FD))
        return [st] + bad
    def file(self, e, st):
        f = Elem(Fld(TABLE, "squash_fdtable", "fds"), 8 * FD, "*squash_file").term(self.L, st, None)
        st.add_le(sub(C(4096), f))
        return f
    def x_squash_vfd_file(self, e, st, ins, args):
        self.ret(st, ins, self.file(e, st))
    def statted(self, e, st, ins, buf):
        bad = self.other(e, st, ins, C(-1), "stat")
        e.write(st, addc(buf, STAT["size"][0]), 8, self.S); e.write(st, addc(buf, STAT["mode"][0]), 4, C(0o100644))
        self.ret(st, ins, ZERO)
        return [st] + bad
    def x_squash_fstat(self, e, st, ins, args):
        return self.statted(e, st, ins, args[1])
    def x_squash_stat(self, e, st, ins, args):
        return self.statted(e, st, ins, args[2])
    x_squash_lstat = x_squash_stat
    def x_squash_close(self, e, st, ins, args):
        self.ret(st, ins, ZERO)
    def got(self, st):
        r = ZERO
        for m in self.entries(st):
            if m[2] == "read":
                r = add(r, m[4])
        return r
    def x_squash_read(self, e, st, ins, args):
        left = sub(self.S, self.got(st))
        out = self.other(e, st, ins, C(-1), "read")
        n = st.norm(args[2])
        s2 = st.copy()
        if s2.add_le(left) is not False:
            self.ret(s2, ins, ZERO); out.append(s2)
        t = mk("F", (e.ctx, ins["i"], e.stamp, "data"))
        e.write_region(st, args[1], n, ("D", t.id, ZERO))
        if self.ok:
            r = st.norm(left)
            if st.add_le(sub(ONE, left)) is False:
                return out
        else:
            r = self.F(e, ins, "got", 1, 1 << 40)
            if st.add_le(sub(r, n)) is False or st.add_le(sub(r, left)) is False:
                return out
        self.log(st, "read", args[1], r)
        self.ret(st, ins, r)
        return out + [st]
    # ---- the host
    def x_squash_tmpdir(self, e, st, ins, args):
        bad = self.other(e, st, ins, ZERO, "tmpdir")
        self.ret(st, ins, V(self.halloc(e, st, ins, self.F(e, ins, "n", 1, 4096), "strdup")))
        return [st] + bad
    def x_squash_tmpf(self, e, st, ins, args):
        bad = self.other(e, st, ins, ZERO, "tmpf")
        self.ret(st, ins, V(self.halloc(e, st, ins, self.F(e, ins, "n", 1, 4096), "strdup")))
        return [st] + bad
    def opened(self, e, st, ins, path, v, bad, what):
        bad = self.other(e, st, ins, bad, what)
        self.log(st, "create", path, v)
        self.ret(st, ins, v)
        return [st] + bad
    def x_fopen(self, e, st, ins, args):
        return self.opened(e, st, ins, args[0], self.F(e, ins, "file", 4096, INF, True), ZERO, "fopen")
    def x_open(self, e, st, ins, args):
        return self.opened(e, st, ins, args[0], self.F(e, ins, "fd", 3, 1 << 20), C(-1), "open")
    x_open64 = x_open; x_fopen64 = x_fopen
    def x_mkstemp(self, e, st, ins, args):
        return self.opened(e, st, ins, args[0], self.F(e, ins, "fd", 3, 1 << 20), C(-1), "mkstemp")
    def x_fdopen(self, e, st, ins, args):
        bad = self.other(e, st, ins, ZERO, "fdopen")
        v = self.F(e, ins, "file", 4096, INF, True)
        self.log(st, "same", args[0], v)
        self.ret(st, ins, v)
        return [st] + bad
    def x_fwrite(self, e, st, ins, args):
        a, b = st.norm(args[1]), st.norm(args[2])
        n = scale(b, a[0]) if not a[1] else scale(a, b[0]) if not b[1] else V(mk("OP", ("mul", min(a, b), max(a, b)), 0))
        r = self.F(e, ins, "short", 0, 1 << 40)
        s2 = st.copy(); bad = []
        if s2.add_le(addc(sub(r, b), 1)) is not False:
            bad = self.other(e, s2, ins, r, "write", args[3])
        self.log(st, "write", args[3], args[0], n)
        self.ret(st, ins, b)
        return [st] + bad
    def x_write(self, e, st, ins, args):
        bad = self.other(e, st, ins, C(-1), "write", args[0])
        self.log(st, "write", args[0], args[1], args[2])
        self.ret(st, ins, args[2])
        return [st] + bad
    def x_fflush(self, e, st, ins, args):
        bad = self.other(e, st, ins, C(-1), "flush", args[0])
        self.ret(st, ins, ZERO)
        return [st] + bad
    def x_fsync(self, e, st, ins, args):
        return self.x_fflush(e, st, ins, args)
    def x_ferror(self, e, st, ins, args):
        f = any(m[2] == "fails" and m[3] in ("write", "flush") for m in self.entries(st))
        self.ret(st, ins, ONE if f else ZERO)
    def x_setvbuf(self, e, st, ins, args):
        self.ret(st, ins, ZERO)
    def x_fclose(self, e, st, ins, args):
        out = []
        if not self.ok:
            s2 = st.copy()
            self.seterr(e, s2, ins); self.ret(s2, ins, C(-1))
            self.log(s2, "close", args[0], ONE); self.log(s2, "fails", "close")
            self.note(s2, e, ins, "close fails")
            out = [s2]
        self.log(st, "close", args[0], ZERO)
        self.ret(st, ins, ZERO)
        return [st] + out
    x_close = x_fclose
    def x_unlink(self, e, st, ins, args):
        self.log(st, "remove", args[0])
        self.ret(st, ins, ZERO)
    x_remove = x_unlink
    def x_unlinkat(self, e, st, ins, args):
        self.log(st, "remove", args[1])
        self.ret(st, ins, ZERO)
    # ---- strings and results
    def x_strdup(self, e, st, ins, args):
        r = super().x_strdup(e, st, ins, args)
        for s in r or ():
            v = s.env[ins["i"]]
            if v != ZERO:
                s.marks = s.marks | frozenset([("dup", v, s.norm(args[0]))])
                self.log(s, "dup", s.norm(args[0]), v)
        return r
    def compare(self, e, st, ins, args):
        a, b = st.norm(args[0]), st.norm(args[1])
        if a == b:
            return self.ret(st, ins, ZERO)
        s2 = st.copy()
        st.marks = st.marks | frozenset([("streq", a, b)]); self.ret(st, ins, ZERO)
        s2.marks = s2.marks | frozenset([("strne", a, b)]); self.ret(s2, ins, self.F(e, ins, "cmp", 1, 255))
        return [st, s2]
    x_strcmp = x_strcoll = compare
    def x_strncmp(self, e, st, ins, args):
        return super().x_strncmp(e, st, ins, args)
    def x_lsq_results(self, e, st, ins, args):
        st.marks = st.marks | frozenset([("res",) + tuple(args)])
        self.ret(st, ins, ZERO)
    race = None
    def x_pthread_mutex_lock(self, e, st, ins, args):
        super().x_pthread_mutex_lock(e, st, ins, args)
        self.meanwhile(e, st)
    def x_MUTEX_LOCK(self, e, st, ins, args):
        self.meanwhile(e, st)
        self.ret(st, ins, ZERO)
    def x_MUTEX_UNLOCK(self, e, st, ins, args):
        self.ret(st, ins, ZERO)
    def meanwhile(self, e, st):
        if self.race and e.cur.name == "squash_extract":
            k = sum(1 for m in st.marks if m[0] == "locked")
            st.marks = st.marks | frozenset([("locked", k)])
            if k + 1 == self.race[0]:
                self.race[1](e, st)
    def absent(self, e, st, ins, path, bad=-1):
        s2 = st.copy()
        self.log(st, "there", path); self.ret(st, ins, ZERO)
        self.seterr(e, s2, ins)
        self.log(s2, "absent", path); self.ret(s2, ins, C(bad))
        return [st, s2]
    def x_stat(self, e, st, ins, args):
        return self.absent(e, st, ins, args[0])
    x_lstat = x_access = x_stat64 = x_lstat64 = x_stat
    def x_snprintf(self, e, st, ins, args):
        r = super().x_snprintf(e, st, ins, args)
        for s in [st] if r is None else r:
            self.log(s, "text", args[0])
        return r
    def x___assert_fail(self, e, st, ins, args):
        i = single(self.S).id
        if (i in st.bnd or any(i in dict(f[1]) for f in st.ineq)) and any(m[2] == "create" for m in self.entries(st)):
            s = st.copy()
            if s.add_le(sub(self.got(st), self.S)) is not False and s.add_le(neg(self.S)) is not False:
                self.aborts[e.loc(ins)] = (e.cur.name, st.trace)
        return super().x___assert_fail(e, st, ins, args)
    def x_atexit(self, e, st, ins, args):
        st.marks = st.marks | frozenset([("atexit", args[0])])
        self.ret(st, ins, ZERO)
        return None

BELOW = ("squash_open", "squash_close", "squash_read", "squash_fstat", "squash_stat", "squash_lstat", "squash_vfd_file", "squash_tmpdir", "squash_tmpf")

class Lab(Layout):
    optional = ()            # parameters that may be null
    def __init__(self, ctx):
        self.ctx = ctx; self.m = Extraction(); self.m.L = self
        self.e = e = ctx.load(models=self.m, clients=("extract.c",), peel=5, MAXB=160, MAXX=160, eager=False, markfacts=True)
        self.nq = 0; self.skipped = []; self.done = []
        self.wrap()
    def wrap(self):
        e = self.e
        orig = e.apply_exit
        def apply_exit(s, st, ins, fn, x, sb, k):
            # what a function logs comes after what its caller logged before
            mine = self.m.entries(s)
            s.marks = frozenset(m for m in s.marks if m[0] != "log")
            r = orig(s, st, ins, fn, x, sb, k)
            new = self.m.entries(s)
            s.marks = frozenset(m for m in s.marks if m[0] != "log") | frozenset(mine) | frozenset([(m[0], m[1] + len(mine)) + m[2:] for m in new])
            return r
        e.apply_exit = apply_exit
    def query(self, fn, setup=None, ok=False, opaque=BELOW):
        e = self.e
        e.opaque = {n for n in opaque if self.ctx.defined(n)}
        if getattr(self, "key", None) != (ok, opaque):
            e.sums.clear(); self.key = (ok, opaque)
        self.m.ok = self.m.nofail = ok
        self.nq += 1
        def start(e, s, a):
            for n in self.statics:
                g = self.ctx.prog.globals[n]
                e.write_region(s, V(gvar(n)), C(g["size"]), ("z",))
                if g["size"] == 8:
                    e.write(s, V(gvar(n)), 8, ZERO)
            for j, x in enumerate(a):
                f = self.ctx.prog.fns[fn]
                if f.params[j][1] == "ptr" and j not in self.optional and s.add_le(sub(C(4096), x)) is False:
                    return False
            return setup(e, s, a) if setup else True
        q = e.query(fn, start)
        out = [x for x in (q.exits if q else ()) if CUT not in x.marks and not x.lossy]
        self.done.append((fn, "", len(out)))
        return out

def statics(prog):
    """the private variables of extraction that start as zero"""
    used = set()
    for f in prog.closure("squash_extract") & prog.closure("squash_extract"):
        if f not in prog.fns or f in BELOW or prog.fns[f].decl:
            continue
        for B in prog.fns[f].blocks:
            for i in B:
                for a in list(i.get("a", ())):
                    if a[0] == "g":
                        used.add(a[1])
    out = []
    for n in sorted(used):
        g = prog.globals.get(n)
        if g and not g["const"] and not g["decl"] and not any(str(c[2][1]) not in ("0", "null") for c in g.get("init", ()) if len(c[2]) > 1) and n not in ("squash_global_fdtable", "squash_global_mutex"):
            if not g["size"] > 4096 and "mutex" not in (g.get("ty") or ""):
                out.append(n)
    return out

def whole(L):
    """one extraction, whatever fails"""
    ctx = L.ctx; m = L.m; fn = "squash_extract"
    n = ns = nf = 0
    xs = L.query(fn)
    for loc, (f, tr) in m.aborts.items():
        ctx.violation("abort:%s" % f, "extraction can stop before the whole file is written and abort the process, leaving the file", f, loc, tr)
    for x in xs:
        n += 1
        ev = m.entries(x)
        made = [v for v in ev if v[2] == "create"]
        gone = [v for v in ev if v[2] == "remove"]
        fails = [v for v in ev if v[2] == "fails"]
        s = state_of(x)
        if x.ret is None:
            continue
        if x.ret == ZERO:
            nf += 1
            for v in made:
                if not any(g[3] == v[3] and g[1] > v[1] for g in gone):
                    why = fails[0][3] if fails else "memory" if x.faults else "something"
                    ctx.violation("left:%s" % why, "extraction returns nothing but leaves the file it created (%s failed)" % why, fn, x.loc, x.trace)
            continue
        if s.add_le(x.ret) is not False:
            continue
        if not made:
            continue
        ns += 1
        for f in fails:
            if f[3] in ("read", "write", "close", "flush"):
                ctx.violation("fails:%s" % f[3], "extraction returns a path although a %s failed" % f[3], fn, x.loc, x.trace)
        mine = [v for v in made if v[3] == x.ret]
        if not mine:
            ctx.violation("path", "extraction returns a path that is not the file it wrote", fn, x.loc, x.trace)
            continue
        for g in gone:
            if g[3] == x.ret:
                ctx.violation("removed", "extraction returns a path it has removed", fn, x.loc, x.trace)
        streams = {v[4] for v in mine}
        streams |= {v[4] for v in ev if v[2] == "same" and v[3] in streams}
        reads = [v for v in ev if v[2] == "read"]
        tot = ZERO; lost = None
        for k, v in enumerate(reads):
            tot = add(tot, v[4])
            end = reads[k + 1][1] if k + 1 < len(reads) else 1 << 30
            ws = [w for w in ev if w[2] == "write" and v[1] < w[1] < end and w[3] in streams and w[4] == v[3]]
            n1 = ZERO
            for w in ws:
                n1 = add(n1, w[5])
            d = s.norm(sub(n1, v[4]))
            if not ws and any(w[2] == "write" and v[1] < w[1] < end for w in ev):
                lost = "?"; break                       # written from elsewhere: not followed
            if not s.is0(d):
                lost = "%s bytes written for %s read" % (show(n1), show(v[4])); break
        if lost == "?":
            continue
        if lost:
            ctx.violation("written", "extraction returns a path although what was read is not what was written (%s)" % lost, fn, x.loc, x.trace)
        elif not fails and not s.le0(sub(m.S, tot)):
            ctx.violation("whole", "extraction returns a path before the whole file has been read and written", fn, x.loc, x.trace)
        last = max([v[1] for v in ev if v[2] == "write" and v[3] in streams] or [-1])
        if not any(v[2] == "close" and v[3] in streams and v[1] > last for v in ev):
            ctx.violation("closed", "extraction returns a path before the file is closed", fn, x.loc, x.trace)
    ctx.cov.update(outcomes_of_one_extraction=n, successes_checked=ns, failures_checked=nf)

def classes(x):
    """which strings hold the same text on this path; None if it contradicts itself"""
    p = {}
    def find(a):
        while p.get(a, a) != a:
            a = p[a]
        return a
    for m in x.marks:
        if m[0] in ("dup", "streq"):
            p[find(m[1])] = find(m[2])
    for m in x.marks:
        if m[0] == "strne" and find(m[1]) == find(m[2]):
            return None
    return find

def names(L):
    """a name for a new file is one that was seen not to exist"""
    ctx = L.ctx; fn = "squash_tmpf"; n = 0
    if not ctx.defined(fn):
        return
    for x in L.query(fn, opaque=(), ok=False):
        if x.ret is None or x.ret == ZERO:
            continue
        ev = L.m.entries(x)
        d = [v for v in ev if v[2] == "dup" and v[4] == x.ret]
        if not d or any(v[2] == "create" for v in ev):
            continue
        src = d[-1][3]
        t = [v[1] for v in ev if v[2] == "text" and v[3] == src and v[1] < d[-1][1]]
        if not t:
            continue
        n += 1
        if not any(v[2] == "absent" and v[3] == src and t[-1] < v[1] < d[-1][1] for v in ev):
            ctx.violation("name", "the name for a new temporary file is given out without having been seen not to exist", fn, x.loc, x.trace)
    ctx.cov["names_checked"] = n

def raced(L):
    """the same path is extracted by another thread meanwhile"""
    ctx = L.ctx; n = 0
    rec = ctx.prog.dis.get("SquashExtractEntry"); g = ctx.prog.globals.get("squash_extract_cache")
    if not rec or not g:
        return
    off = {m[0]: m[1] for m in rec["members"]}
    other = V(mk("OP", ("other",), 4096, INF, True)); theirs = V(mk("OP", ("theirs",), 4096, INF, True))
    a = [V(i) for i in L.e.ptypes(ctx.prog.fns["squash_extract"])]
    def insert(e, st):
        for k, v in (("fs", a[0]), ("path", a[1]), ("ret", theirs), ("next", ZERO)):
            e.write(st, addc(other, off[k]), 8, v)
        e.write(st, V(gvar("squash_extract_cache")), 8, other)
    L.e.peel = 3
    L.m.race = (2, insert)
    L.key = None
    for x in L.query("squash_extract", ok=True, opaque=BELOW + ("MUTEX_LOCK", "MUTEX_UNLOCK")):
        if sum(1 for m in x.marks if m[0] == "locked") < 2 or x.ret is None or classes(x) is None:
            continue
        ev = L.m.entries(x)
        n += 1
        gone = [v[3] for v in ev if v[2] == "remove"]
        if theirs in gone:
            ctx.violation("race:removed", "an extraction that another thread was faster with removes the other thread's file", "squash_extract", x.loc, x.trace)
        if x.ret != theirs and x.ret != ZERO:
            ctx.violation("race:other", "an extraction that another thread was faster with returns another file than the one remembered", "squash_extract", x.loc, x.trace)
        for v in ev:
            if v[2] == "create" and v[3] not in gone:
                if x.ret == v[3]:
                    continue
                ctx.violation("race:left", "an extraction that another thread was faster with leaves its own file, which nothing removes", "squash_extract", x.loc, x.trace)
    L.m.race = None
    ctx.cov["races_checked"] = n

def remembered(L):
    """several extractions that all succeed"""
    ctx = L.ctx; m = L.m; prog = ctx.prog; nr = 0
    L.e.peel, L.e.MAXB, L.e.MAXX = 3, 2000, 2000
    def runs(fn, setup=None):
        def st(e, s, a):
            s.add_le(sub(ONE, m.S)); s.add_le(addc(m.S, -1000))
            return setup(e, s, a) if setup else True
        for x in L.query(fn, st, ok=True):
            find = classes(x)
            r = [k for k in x.marks if k[0] == "res"]
            if find is None or len(r) != 1:
                continue
            a = [V(i) for i in L.e.ptypes(prog.fns[fn])]
            made = [v[3] for v in m.entries(x) if v[2] == "create"]
            gone = [v[3] for v in m.entries(x) if v[2] == "remove"]
            yield x, r[0][1:], a, find, made, gone
    def bad(key, msg, x):
        ctx.violation(key, msg, "squash_extract", x.loc, x.trace)
    for x, r, a, find, made, gone in runs("xt_same"):
        nr += 1
        if r[0] != r[1]:
            bad("same", "extracting the same path of the same image again does not return the same file", x)
        elif r[0] in gone:
            bad("same:removed", "extracting the same path again removes the file returned before", x)
    for fn in ("xt_path", "xt_back"):
        for x, r, a, find, made, gone in runs(fn):
            nr += 1
            same = find(a[1]) == find(a[2])
            if not same and r[0] == r[1]:
                bad("path", "extracting a different path returns the file of another", x)
            if fn == "xt_back" and r[2] != r[0]:
                bad("back", "extracting a path again after another does not return its file", x)
            elif set(r) & set(gone):
                bad("removed", "a later extraction removes a file returned before", x)
    def two(e, s, a):
        return s.add_ne(sub(a[0], a[1])) is not False
    for x, r, a, find, made, gone in runs("xt_image", two):
        if state_of(x).is0(sub(a[0], a[1])):
            continue
        nr += 1
        if r[0] == r[1]:
            bad("image", "extracting a path of a different image returns the file of another", x)
        elif r[2] != r[0]:
            bad("image:back", "extracting a path of an image again after one of another image does not return its file", x)
    ctx.cov["sequences_checked"] = nr
    nx = 0
    if ctx.defined("squash_extract_clear_cache"):
        for x, r, a, find, made, gone in runs("xt_exit"):
            nx += 1
            for k in sorted(set(r[:2]), key=repr):
                if k not in gone:
                    bad("exit", "a remembered file is not removed when the record is cleared", x)
        e = L.e
        regs = set()
        L.m.x_squash_extract_clear_cache = lambda e, st, ins, args: st.__setattr__("marks", st.marks | frozenset([("cleared",)]))
        for f in ("squash_start",):
            if not ctx.defined(f):
                continue
            for x in L.query(f, opaque=("squash_extract_clear_cache",)):
                got = [single(k[1]).args[0] for k in x.marks if k[0] == "atexit" and single(k[1]) is not None and single(k[1]).kind == "FN"]
                for g in got:
                    regs.add(g)
                if x.ret == ZERO and not got and not any("atexit" in prog.calls.get(c, ()) for c in prog.closure("squash_extract")):
                    ctx.violation("exit:unregistered", "the library starts without arranging for extracted files to be removed at exit", f, x.loc, x.trace)
        if regs:
            good = False
            for g in sorted(regs):
                if g == "squash_extract_clear_cache":
                    good = True
                elif "squash_extract_clear_cache" in prog.closure(g):
                    xs = L.query(g, opaque=("squash_extract_clear_cache",))
                    miss = [x for x in xs if ("cleared",) not in x.marks]
                    good = True
                    for x in miss:
                        ctx.violation("exit:%s" % g, "%s can end without removing the extracted files" % g, g, x.loc, x.trace)
                elif prog.closure(g) & {"unlink", "remove", "unlinkat"}:
                    good = True
            if not good:
                ctx.violation("exit:nothing", "what runs at exit (%s) does not remove extracted files" % ", ".join(sorted(regs)), "squash_start", ("", 0))
        ctx.cov["exits_of_the_process_checked"] = nx

@rule("C23")
def c23(ctx):
    L = Lab(ctx); ctx.L = L
    ctx.need("squash_extract")
    del ctx.L
    L.statics = statics(ctx.prog)
    for f in (whole, remembered, names, raced):
        guard(L, f)
    ctx.cov["queries"] = L.nq; ctx.cov["groups_skipped"] = len(L.skipped)
    ctx.samples = ["%s: %d exits" % (f, n) for f, w, n in L.done] + ["skipped " + s for s in L.skipped]
    return ("every path of an extraction is analysed with the layers below as functions that succeed or fail: reading yields an unknown part of the rest of a file of "
            "unknown size, and every creation, write, close and removal on the host is logged in order. Where a path is returned, nothing logged may have failed, the "
            "parts read (as terms) must be exactly those written, must add up to at least the file's size, and the stream be closed after them; where nothing is returned, "
            "what was created must have been removed. Sequences of two and three extractions are analysed for what they return, and the exit handler for what it "
            "removes. Loops are followed for 5 rounds.")
