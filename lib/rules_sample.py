"""C25: where the sample's wrappers send a call."""
from rules_extract import *

PREFIX = "/__enclose_io_memfs__"
# wrapper: (the operating system's function, the library's function, index of the path among the wrapper's parameters, of the handle)
# the last entry: how the wrapper's own parameters line up with those of the operating system's function
PATHS = {
    "stat": ("squash_stat", 0), "lstat": ("squash_lstat", 0), "readlink": ("squash_readlink", 0), "opendir": ("squash_opendir", 0),
    "scandir": ("squash_scandir", 0), "open": ("squash_open", 1), "openat": ("squash_open", 2), "access": ("squash_stat", 0),
    "mkdir": (None, 0), "execv": (None, 0), "chdir": (None, 0), "dlopen": (None, 0),
}
HANDLES = {
    "fstat": "squash_fstat", "close": "squash_close", "read": "squash_read", "lseek": "squash_lseek", "pread": None, "readv": None, "fdopendir": None,
    "closedir": "squash_closedir", "readdir": "squash_readdir", "telldir": "squash_telldir", "seekdir": "squash_seekdir",
    "rewinddir": "squash_rewinddir", "dirfd": "squash_dirfd",
}
NATIVE = set(PATHS) | set(HANDLES) | {"getcwd", "write", "pwrite", "unlink", "rmdir", "rename", "openat64", "fopen", "creat", "fchdir"}
VALID = ("squash_vfd_file", "squash_find_entry")

class Routes(Models):
    """the operating system and the library as logs; whether a path or a handle is virtual is decided by the question asked"""
    virtual = False          # the answer of enclose_io_is_path
    me = None                # the wrapper asked: that it calls itself is part of the log
    handle = False           # the answer of the library's tests of a handle
    def __init__(self):
        super().__init__(); self.lib = set()
    entries = Extraction.entries
    log = Extraction.log
    def value(self, e, ins):
        p = ins["t"] == "ptr"
        return ZERO if ins["t"] == "void" else self.F(e, ins, "r", 0 if p else -INF, INF, p)
    def extern(self, e, st, ins, name, args):
        nm = name[:-2] if name.endswith("64") else name
        if nm == "__xstat" or nm == "__lxstat":
            nm = nm[3:]; args = args[1:]
        if name in VALID:
            self.ret(st, ins, self.F(e, ins, "file", 4096, INF, True) if self.handle else ZERO)
            return None
        if name == "enclose_io_is_path":
            if st.le0(args[0]):
                return []                # it looks at the text
            self.log(st, "ispath", args[0])
            self.ret(st, ins, ONE if self.virtual else ZERO)
            return None
        if name in self.lib or name == self.me:
            if name.startswith("MUTEX"):
                self.ret(st, ins, ZERO); return None
            r = self.value(e, ins)
            if name in ("squash_stat", "squash_lstat", "squash_fstat") and args:
                t = mk("F", (e.ctx, ins["i"], e.stamp, "data"))
                e.write_region(st, args[-1], C(144), ("D", t.id, ZERO))
            self.log(st, "lib", C(self.number("lib", name)), r, *args)
            self.ret(st, ins, r)
            return None
        if nm in NATIVE:
            r = self.value(e, ins)
            self.log(st, "os", C(self.number("os", nm)), r, *args)
            self.ret(st, ins, r)
            return None
        return super().extern(e, st, ins, name, args)
    names = []
    def number(self, k, n):
        if (k, n) not in self.names:
            self.names.append((k, n))
        return self.names.index((k, n))
    def text(self, st, dst, src):
        self.log(st, "into", st.norm(dst), st.norm(src))
    def intrinsic(self, e, st, ins, name, args):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            self.text(st, args[0], args[1])
        return super().intrinsic(e, st, ins, name, args)
    def x_memcpy(self, e, st, ins, args):
        self.text(st, args[0], args[1]); return super().x_memcpy(e, st, ins, args)
    def x_memmove(self, e, st, ins, args):
        self.text(st, args[0], args[1]); return super().x_memmove(e, st, ins, args)
    def x_strcpy(self, e, st, ins, args):
        self.text(st, args[0], args[1]); return super().x_strcpy(e, st, ins, args)
    x_stpcpy = x_strcpy
    def x_strcat(self, e, st, ins, args):
        self.text(st, args[0], args[1]); return super().x_strcat(e, st, ins, args)
    def x_strncpy(self, e, st, ins, args):
        self.text(st, args[0], args[1]); return Models.extern(self, e, st, ins, "strncpy", args) if not hasattr(Models, "x_strncpy") else super().x_strncpy(e, st, ins, args)
    def x_snprintf(self, e, st, ins, args):
        for a in args[3:]:
            self.text(st, args[0], a)
        return super().x_snprintf(e, st, ins, args)

class Prefix(Models):
    """comparisons of the path with a constant, either way"""
    entries = Extraction.entries
    log = Extraction.log
    def const(self, e, v):
        a = single(v)
        g = e.p.globals.get(a.args[0]) if a is not None and a.kind == "G" else None
        if g is None or not g["const"]:
            return None
        d = {c[0]: int(c[2][1]) for c in g.get("init", ()) if c[1] == 1}
        s = ""
        for i in range(g["size"]):
            if not d.get(i):
                break
            s += chr(d[i] & 255)
        return s
    def cmp(self, e, st, ins, args):
        a, b = st.norm(args[0]), st.norm(args[1])
        t, p = (self.const(e, a), b) if self.const(e, a) is not None else (self.const(e, b), a)
        n = st.norm(args[2]) if len(args) > 2 else None
        if t is None or n is not None and n[1] or single(p) is None or single(p).kind != "P":
            self.log(st, "unknown")
            return super().cmp(e, st, ins, args)
        k = min(n[0], len(t) + 1) if n is not None else len(t) + 1
        t = t + "\0"
        self.texts.append(t[:k]); j = C(len(self.texts) - 1)
        s2 = st.copy()
        self.log(st, "same", j); self.ret(st, ins, ZERO)
        self.log(s2, "differs", j); y = self.F(e, ins, "c", -255, 255); s2.add_ne(y); self.ret(s2, ins, y)
        return [st, s2]
    x_strcmp = x_strncmp = x_memcmp = cmp
    def x_strstr(self, e, st, ins, args):
        self.log(st, "unknown")
        return self.find(e, st, ins, args)
    x_strchr = x_strrchr = x_memchr = x_strstr

class SampleLab(Lab):
    nonnull = True
    def __init__(self, ctx):
        self.ctx = ctx; self.m = Routes(); self.m.L = self
        self.e = ctx.load(sample=True, models=self.m, peel=3, MAXB=400, MAXX=800, eager=False, markfacts=True)
        self.wrap(); self.nq = 0; self.skipped = []; self.done = []; self.statics = ()
        fns = ctx.prog.fns
        self.m.lib = {n for n, f in fns.items() if not f.decl and "/sample/" not in f.file}
        self.m.nofail = True
    def wrapper(self, os):
        n = "enclose_io_" + os
        return n if self.ctx.defined(n) and "/sample/" in self.ctx.prog.fns[n].file else None
    def ask(self, fn, virtual, handle, setup):
        """the exits of a wrapper under one answer of the tests"""
        e = self.e
        if (virtual, handle) != getattr(self, "key", None):
            e.sums.clear(); self.key = (virtual, handle)
        self.m.virtual, self.m.handle = virtual, handle
        e.opaque = set(self.m.lib) | {"enclose_io_is_path", fn}
        self.m.me = fn
        self.nq += 1
        def start(e, s, a):
            for j, x in enumerate(a):
                if self.nonnull and self.ctx.prog.fns[fn].params[j][1] == "ptr" and s.add_le(sub(C(4096), x)) is False:
                    return False
            return setup(e, s, a)
        q = e.query(fn, start)
        out = [x for x in (q.exits if q else ()) if CUT not in x.marks and not x.lossy]
        self.done.append((fn, "", len(out)))
        return out
    def events(self, x):
        return [(v[2], self.m.names[v[3][0]][1], v[4], v[5:]) if v[2] in ("os", "lib") else v[2:] for v in self.m.entries(x)]

def cwd(e, s, there):
    e.write(s, V(gvar("enclose_io_cwd")), 1, V(mk("OP", ("cwd0",), 1, 127)) if there else ZERO)

def first(e, s, p, slash):
    v = mk("OP", ("path0",), 48, 127)
    e.write(s, p, 1, C(47) if slash else V(v))

def workdir(e, s, there):
    e.write(s, V(gvar("mkdir_workdir")), 8, V(mk("OP", ("workdir",), 4096, INF, True)) if there else ZERO)

def shift(os):
    """the wrapper's parameters that are the operating system's, in order"""
    return {"open": (1, 2), "openat": (1, 2, 3)}.get(os)

def same(s, x, want):
    return s.is0(s.norm(sub(x, want)))

def outside(L):
    """paths outside, under every way to be outside: the operating system gets the call"""
    ctx = L.ctx; n = 0
    for os, (lib, pi) in sorted(PATHS.items()):
        fn = L.wrapper(os)
        if fn is None:
            continue
        f = ctx.prog.fns[fn]
        a = [V(i) for i in L.e.ptypes(f)]
        for what, there, slash, nargs in (("", False, True, 0), ("", False, False, 0), ("in a virtual directory", True, True, 0)) + ((("with a mode", False, True, 1),) if os in ("open", "openat") else ()):
            def setup(e, s, a, there=there, slash=slash, nargs=nargs):
                cwd(e, s, there); first(e, s, a[pi], slash); workdir(e, s, False)
                if os in ("open", "openat"):
                    k = 2 + nargs + (os == "openat")
                    return s.add_le(addc(a[0], -k)) is not False and s.add_le(addc(neg(a[0]), k)) is not False
                return True
            for x in L.ask(fn, False, False, setup):
                n += 1
                routed(L, os, fn, x, a, shift(os) or tuple(range(len(a))), "path outside the virtual prefix")
    ctx.cov["outside_paths"] = n

def routed(L, os, fn, x, a, idx, what):
    """exactly one call of the operating system, with the caller's arguments, whose result is the wrapper's"""
    ctx = L.ctx; s = state_of(x)
    ev = L.events(x)
    calls = [v for v in ev if v[0] == "os"]
    mine = [v for v in calls if v[1] == os]
    def bad(k, t):
        ctx.violation("%s:%s" % (fn, k), "%s: a %s %s" % (fn, what, t), fn, x.loc, x.trace)
    if len(mine) != 1 or len(calls) != 1:
        return bad("os", "does not reach the operating system's %s" % os if not mine else "makes %d calls of the operating system (%s)" % (len(calls), ", ".join(v[1] for v in calls)))
    v = mine[0]
    for k, j in enumerate(idx):
        if k < len(v[3]) and not same(s, v[3][k], a[j]):
            bad("argument", "reaches the operating system's %s with argument %d changed (%s)" % (os, k + 1, show(v[3][k]))); return
        if k >= len(v[3]):
            bad("argument", "reaches the operating system's %s without argument %d" % (os, k + 1)); return
    rt = ctx.prog.fns[fn].dity[0] if ctx.prog.fns[fn].dity else None
    if x.ret is not None and rt not in (None, "void") and not same(s, x.ret, v[2]):
        bad("result", "does not return what the operating system's %s returns (%s)" % (os, show(x.ret)))
    if any(w[0] == "lib" and w[1] == "squash_" + os for w in ev):
        bad("library", "is also served by the library")

def whole_path(L, x, fn, pathatom, relative, arg, ev, upto):
    """is `arg` the path, or the working directory and the path put together?"""
    if not relative:
        return None if arg == pathatom else "another path"
    if arg == pathatom:
        return "the path without the working directory"
    b, off = split(arg)
    src = {split(v[2])[0] for v in ev[:upto] if v[0] == "into" and split(v[1])[0] == b}
    names = set()
    for i in src:
        if i is None:
            continue
        t = ATOMS[i]
        names.add("cwd" if t.kind == "G" and t.args[0] == "enclose_io_cwd" else "path" if i == split(pathatom)[0] else "?")
    if not src or "?" in names:
        return None
    if "cwd" not in names:
        return "a path without the working directory"
    if "path" not in names:
        return "a path that does not hold the one asked for"
    return None

def inside(L):
    """paths inside: the library gets the call"""
    ctx = L.ctx; n = 0
    for os, (lib, pi) in sorted(PATHS.items()):
        fn = L.wrapper(os)
        if fn is None:
            continue
        f = ctx.prog.fns[fn]
        a = [V(i) for i in L.e.ptypes(f)]
        p = a[pi]
        for what, rel in (("path inside the virtual prefix", False), ("path relative to a virtual working directory", True)):
            for wd, creat in ((False, False), (True, False)) + (((False, True), (True, True)) if os in ("open", "openat") else ()):
                def setup(e, s, a):
                    cwd(e, s, rel); first(e, s, a[pi], not rel); workdir(e, s, wd)
                    if os in ("open", "openat"):
                        k = 2 + creat + (os == "openat")
                        s.add_le(addc(a[0], -k)); s.add_le(addc(neg(a[0]), k))
                        fl = a[pi + 1]; k = 0o1101 if creat else 0
                        s.add_le(addc(fl, -k)); s.add_le(addc(neg(fl), k))
                    if os == "openat" and rel:
                        if s.add_le(addc(a[1], 100)) is False or s.add_le(addc(neg(a[1]), -100)) is False:       # AT_FDCWD
                            return False
                    return True
                L.chdir = os == "chdir"
                for x in L.ask(fn, not rel, False, setup):
                    n += 1
                    served(L, os, lib, fn, x, a, pi, p, rel, wd, what, creat)
    ctx.cov["inside_paths"] = n

def served(L, os, lib, fn, x, a, pi, p, rel, wd, what, creat):
    ctx = L.ctx; s = state_of(x); ev = L.events(x)
    def bad(k, t):
        ctx.violation("%s:%s%s" % (fn, k, ":relative" if rel else ""), "%s: a %s %s" % (fn, what, t), fn, x.loc, x.trace)
    for v in ev:
        if v[0] == "os" and any(y == p for y in v[3]):
            return bad("raw", "reaches the operating system's %s" % v[1])
    if creat:
        return                           # the image cannot be created in: the path must only not reach the system
    for k, v in enumerate(ev):
        if v[0] == "lib" and v[1] == fn:
            # the wrapper again, with the whole path
            w = whole_path(L, x, fn, p, rel, v[3][pi], ev, k)
            if w:
                bad("path", "is asked again as %s" % w)
            elif x.ret is not None and not same(s, x.ret, v[2]):
                bad("result", "does not return what the wrapper returns for the whole path")
            return
    libs = [(k, v) for k, v in enumerate(ev) if v[0] == "lib" and (v[1] in ctx.roots() or v[1] == lib) and v[1] not in ("squash_tmpdir", "squash_tmpf")]
    for k, v in libs:
        # a path handed to the library is the whole path
        t = [y for y in v[3][1:2]]
        if v[1] in ("squash_stat", "squash_lstat", "squash_readlink", "squash_opendir", "squash_scandir", "squash_open", "squash_extract") and t and os != "mkdir":
            w = whole_path(L, x, fn, p, rel, t[0], ev, k)
            if w:
                return bad("path", "is asked of the library as %s" % w)
    if wd or lib is None:
        if os == "dlopen" and not wd:
            ex = [v for k, v in libs if v[1] == "squash_extract"]
            dl = [v for v in ev if v[0] == "os" and v[1] == "dlopen"]
            if not ex:
                bad("extract", "is not extracted")
            elif dl and not same(s, dl[0][3][0], ex[0][2]):
                bad("extract", "is loaded from another file than the one extracted")
        if os == "chdir" and not wd:
            ok = [v for k, v in libs if v[1] in ("squash_stat", "squash_lstat")]
            if not ok:
                bad("lookup", "is entered without asking the library")
            into = [v for v in ev if v[0] == "into" and v[1] == V(gvar("enclose_io_cwd"))]
            if x.ret == ZERO and not into:
                bad("remember", "is entered without becoming the working directory")
            if x.ret is not None and x.ret != ZERO and into:
                bad("remember", "becomes the working directory although it could not be entered")
        return
    mine = [v for k, v in libs if v[1] == lib]
    if not mine:
        return bad("lib", "is not served by the library's %s" % lib)
    if any(v[0] == "os" for v in ev):
        return bad("both", "also reaches the operating system (%s)" % ", ".join(v[1] for v in ev if v[0] == "os"))
    v = mine[-1]
    fsv = L.e.read(s, V(gvar("enclose_io_fs")), 8, True)
    if not same(s, v[3][0], fsv):
        bad("image", "is asked of another image")
    rest = [j for j in range(pi + 1, len(a))] if os not in ("open", "openat", "access") else []
    for k, j in enumerate(rest):
        if 2 + k < len(v[3]) and not same(s, v[3][2 + k], a[j]):
            return bad("argument", "reaches the library's %s with argument %d changed (%s)" % (lib, 3 + k, show(v[3][2 + k])))
    if x.ret is not None and not same(s, x.ret, v[2]):
        bad("result", "does not return what the library's %s returns (%s)" % (lib, show(x.ret)))

def handles(L):
    """handles: of the library's they go to the library, any other to the operating system"""
    ctx = L.ctx; n = 0
    for os, lib in sorted(HANDLES.items()):
        fn = L.wrapper(os)
        if fn is None:
            continue
        f = ctx.prog.fns[fn]
        a = [V(i) for i in L.e.ptypes(f)]
        def setup(e, s, a):
            workdir(e, s, False); return True
        for x in L.ask(fn, False, False, setup):
            n += 1
            routed(L, os, fn, x, a, tuple(range(len(a))), "handle that is not the library's")
        for x in L.ask(fn, False, True, setup):
            n += 1
            s = state_of(x); ev = L.events(x)
            def bad(k, t):
                ctx.violation("%s:%s:handle" % (fn, k), "%s: a handle of the library %s" % (fn, t), fn, x.loc, x.trace)
            for v in ev:
                if v[0] == "os" and any(y == a[0] for y in v[3]):
                    bad("raw", "reaches the operating system's %s" % v[1]); break
            else:
                libs = [v for v in ev if v[0] == "lib"]
                if os == "pread":
                    pread(L, s, x, a, libs, bad); continue
                if os == "readv":
                    readv(L, s, x, a, libs, bad); continue
                if lib is None:
                    continue
                mine = [v for v in libs if v[1] == lib]
                if len(mine) != 1:
                    bad("lib", "is not served by the library's %s" % lib); continue
                v = mine[0]
                for k in range(len(a)):
                    if k >= len(v[3]) or not same(s, v[3][k], a[k]):
                        bad("argument", "reaches the library's %s with argument %d changed" % (lib, k + 1)); break
                rt = f.dity[0] if f.dity else None
                if x.ret is not None and rt not in (None, "void") and not same(s, x.ret, v[2]):
                    bad("result", "does not return what the library's %s returns (%s)" % (lib, show(x.ret)))
    ctx.cov["handle_outcomes"] = n

def pread(L, s, x, a, libs, bad):
    rd = [k for k, v in enumerate(libs) if v[1] == "squash_read"]
    if not rd:
        if x.ret is None or not s.le0(addc(x.ret, 1)):
            bad("read", "is reported read without being read")
        return
    if len(rd) != 1:
        return
    v = libs[rd[0]]
    if not (same(s, v[3][0], a[0]) and same(s, v[3][1], a[1]) and same(s, v[3][2], a[2])):
        return bad("argument", "is read with other arguments than asked for")
    seeks = [w for w in libs[:rd[0]] if w[1] == "squash_lseek"]
    if not seeks or not same(s, seeks[-1][3][1], a[3]) or seeks[-1][3][2] != ZERO:
        bad("offset", "is not read at the offset asked for")
    after = [w for w in libs[rd[0] + 1:] if w[1] == "squash_lseek"]
    saved = [w[2] for w in seeks if w[3][1] == ZERO and w[3][2] == ONE]
    if not after or not saved or not same(s, after[-1][3][1], saved[0]) or after[-1][3][2] != ZERO:
        bad("position", "is not left at the position it had")
    if not same(s, x.ret, v[2]):
        bad("result", "does not return what was read")

def readv(L, s, x, a, libs, bad):
    rd = [v for v in libs if v[1] == "squash_read"]
    tot = ZERO
    for k, v in enumerate(rd):
        base = L.e.read(s, addc(a[1], 16 * k), 8, True); ln = L.e.read(s, addc(a[1], 16 * k + 8), 8)
        if not same(s, v[3][0], a[0]):
            return bad("argument", "is read from another handle")
        if not same(s, v[3][1], base) or not same(s, v[3][2], ln):
            return bad("vector", "is not read into the caller's vectors in their order")
        tot = add(tot, v[2])
    if x.ret is not None and x.ret != C(-1) and not same(s, x.ret, tot) and not s.le0(addc(x.ret, 1)):
        bad("result", "does not return the sum of what was read (%s)" % show(x.ret))

def special(L):
    """a program that loads itself, and files below a directory handle of the library"""
    ctx = L.ctx
    fn = L.wrapper("dlopen")
    if fn:
        a = [V(i) for i in L.e.ptypes(ctx.prog.fns[fn])]
        L.nonnull = False
        n = 0
        for there in (False, True):
            xs = L.ask(fn, False, False, lambda e, s, a: (cwd(e, s, there), s.add_le(a[0]))[1] is not False)
            n += len(xs)
            for x in xs:
                ev = [v for v in L.events(x) if v[0] == "os"]
                if len(ev) != 1 or ev[0][1] != "dlopen" or not state_of(x).is0(ev[0][3][0]):
                    ctx.violation("dlopen:null", "a null path (the program itself) does not reach the operating system's dlopen", fn, x.loc, x.trace)
            if not xs:
                ctx.violation("dlopen:null", "a null path (the program itself) does not reach the operating system's dlopen", fn, (ctx.prog.fns[fn].file, ctx.prog.fns[fn].line))
        L.nonnull = True
        ctx.cov["null_paths"] = n
    fn = L.wrapper("openat")
    if fn:
        def setup(e, s, a):
            cwd(e, s, False); first(e, s, a[2], False); workdir(e, s, False)
            return s.add_le(addc(neg(a[0]), 3)) is not False and s.add_le(addc(a[0], -4)) is not False and s.add_le(sub(C(3), a[1])) is not False
        for x in L.ask(fn, False, True, setup):
            for v in L.events(x):
                if v[0] == "os" and len(v[3]) > 1 and v[3][1] == V(L.e.ptypes(ctx.prog.fns[fn])[2]):
                    ctx.violation("enclose_io_openat:raw:directory", "a path relative to a directory handle of the library reaches the operating system's %s" % v[1], fn, x.loc, x.trace)

def directory(L):
    """what the working directory is, after it was changed and when it is asked for"""
    ctx = L.ctx; n = 0
    fn = L.wrapper("chdir"); c = V(gvar("enclose_io_cwd"))
    if fn:
        a = [V(i) for i in L.e.ptypes(ctx.prog.fns[fn])]
        for there in (False, True):
            def setup(e, s, a):
                cwd(e, s, there); first(e, s, a[0], True); workdir(e, s, False); return True
            for x in L.ask(fn, False, False, setup):
                n += 1; s = state_of(x)
                v = s.norm(L.e.read(s, c, 1))
                if s.is0(x.ret):
                    if not s.is0(v):
                        ctx.violation("chdir:left", "entering a directory outside the virtual prefix leaves the working directory virtual", fn, x.loc, x.trace)
                elif s.add_ne(x.ret) is not False and there and s.is0(v):
                    ctx.violation("chdir:lost", "failing to enter a directory ends the virtual working directory", fn, x.loc, x.trace)
    fn = L.wrapper("getcwd")
    if fn:
        a = [V(i) for i in L.e.ptypes(ctx.prog.fns[fn])]
        for there in (False, True):
            def setup(e, s, a):
                cwd(e, s, there); s.add_le(sub(C(4096), a[1])); return True
            for x in L.ask(fn, False, False, setup):
                n += 1
                if not there:
                    routed(L, "getcwd", fn, x, a, (0, 1), "working directory outside the virtual prefix")
                    continue
                ev = L.events(x)
                if any(v[0] == "os" for v in ev):
                    ctx.violation("getcwd:raw", "a virtual working directory is asked of the operating system", fn, x.loc, x.trace)
                elif x.ret == a[0] and not any(v[0] == "into" and v[1] == a[0] and split(v[2])[0] == split(c)[0] for v in ev) and any(v[0] == "into" for v in ev):
                    ctx.violation("getcwd:text", "the working directory reported is not the virtual one", fn, x.loc, x.trace)
    ctx.cov["directory_outcomes"] = n

def prefix(L):
    """which paths are inside"""
    ctx = L.ctx; fn = "enclose_io_is_path"; m = Prefix(); m.texts = []; n = 0
    if not ctx.defined(fn):
        return
    e = ctx.load(sample=True, models=m, peel=24, MAXB=400, MAXX=800, eager=False, markfacts=True)
    def setup(e, s, a):
        return s.add_le(sub(C(4096), a[0])) is not False
    q = e.query(fn, setup)
    a = [V(i) for i in e.ptypes(ctx.prog.fns[fn])]
    ln = V(mk("SL", (a[0],), 0, 1 << 62))
    for x in q.exits if q else ():
        ev = m.entries(x); s = state_of(x)
        if x.lossy or CUT in x.marks or x.ret is None or any(v[2] == "unknown" for v in ev):
            continue
        n += 1
        eq = [m.texts[v[3][0]] for v in ev if v[2] == "same"]; ne = [m.texts[v[3][0]] for v in ev if v[2] == "differs"]
        if s.is0(x.ret):
            short = s.le0(addc(sub(ln, C(len(PREFIX))), 1))
            if not short and not any(PREFIX.startswith(t) for t in ne):
                # a path that begins with the prefix takes this way out
                ctx.violation("prefix:missed", "a path inside the virtual prefix is taken for one outside", fn, x.loc, x.trace)
        else:
            if not eq:
                continue
            if not any(t.startswith(PREFIX) or t == PREFIX for t in eq):
                ctx.violation("prefix:wrong", "a path that begins with %r only is taken for one inside the virtual prefix" % max(eq, key=len), fn, x.loc, x.trace)
    ctx.cov["prefix_outcomes"] = n

@rule("C25")
def c25(ctx):
    L = SampleLab(ctx)
    L.wrappers = [w for w in map(L.wrapper, sorted(set(PATHS) | set(HANDLES))) if w]
    ctx.need("enclose_io_stat", "enclose_io_open", "enclose_io_read", "enclose_io_is_path")
    for f in (outside, inside, handles, special, directory, prefix):
        guard(L, f)
    ctx.cov.update(wrappers_checked=len(L.wrappers), queries=L.nq, groups_skipped=len(L.skipped))
    ctx.samples = ["%s: %d exits" % (f, n) for f, w, n in L.done] + ["skipped " + s for s in L.skipped]
    return ("each wrapper is analysed under each answer of the tests it makes (the prefix test, the working directory, the library's tests of a handle) with the library's and the operating "
            "system's functions as logs. Outside: exactly one call of the matching system function, with the caller's argument terms, whose result term is returned. Inside: the matching library function gets the image, "
            "the path (or a buffer into which both the working directory and the path were copied) and the caller's other arguments, its result is returned, and nothing reaches the operating "
            "system. The prefix test itself is analysed for which comparisons each answer rests on.")
