"""Models of the external functions (libc, pthread, zlib) for the abstract interpreter.
Each model returns None (the state was updated in place) or the list of successor states."""
from terms import *
from state import *

def errno_addr():
    return V(mk("G", ("errno",), 4096, INF, True))

NORETURN = {"exit", "abort", "_exit"}
# functions that only compute; result range
PURE = {"rand": (0, (1 << 31) - 1), "getpid": (1, 1 << 31), "time": (0, 1 << 40), "srand": None,
        "gnu_dev_makedev": None, "fprintf": None, "printf": None, "fflush": None, "puts": None, "putchar": None,
        "putc": None, "fputs": None, "fputc": None, "vfprintf": None, "perror": None, "sprintf": None,
        "atexit": None, "pthread_self": None, "usleep": None, "sched_yield": None,
        "toupper": None, "tolower": None, "isatty": None, "abs": None, "random": (0, (1 << 31) - 1)}
# OS calls that may fail with -1 and errno: name -> list of (buffer argument, size: const int | ("arg", n)) written
OSCALL = {
    "access": [], "chdir": [], "lstat": [(1, 144)], "stat": [(1, 144)], "fstat": [(1, 144)], "fstatat": [(2, 144)],
    "mkdir": [], "rmdir": [], "unlink": [], "open": [], "openat": [], "lseek": [], "read": [(1, ("arg", 2))],
    "pread": [(1, ("arg", 2))], "readv": [], "readlink": [(1, ("arg", 2))], "execv": [], "setenv": [], "nftw": [],
    "dirfd": [], "rename": [], "unlinkat": [], "write": [], "pwrite": [], "ftruncate": [], "fchmod": [], "chmod": [],
    "remove": [], "seekdir": [], "rewinddir": [], "telldir": [], "scandir": [], "mkdirat": [], "symlink": [],
    "fcntl": [], "ioctl": [], "dlclose": [], "readdir_r": [], "utime": [], "utimes": [], "link": [], "putenv": [],
    "unsetenv": [], "execve": [], "execvp": [], "fileno": [], "fsync": [], "truncate": [],
}
OSPTR = {"opendir", "fdopendir", "readdir", "dlopen", "getcwd", "tmpfile", "fdopen", "realpath", "dlsym", "popen"}
# operating-system calls recorded as marks for the routing analysis
ROUTED = set(OSCALL) | OSPTR | {"close", "closedir"}

class Models:
    def __init__(self, marks=False):
        self.lift = {}
        self.marks = marks
        self.nofail = False      # suppress failing disjuncts (allocation, io)

    # ------------------------------------------------------------- small helpers
    def F(self, e, ins, what="", lo=-INF, hi=INF, ptr=False):
        return e.fresh(ins, what, lo, hi, ptr)

    def ret(self, st, ins, v):
        if ins["t"] != "void":
            st.env[ins["i"]] = v

    def seterr(self, e, st, ins, code=None):
        v = C(code) if code is not None else self.F(e, ins, "errno", 1, 4095)
        e.write(st, errno_addr(), 4, v)

    def fault(self, st, f):
        st.faults = st.faults | frozenset([f])

    def note(self, st, e, ins, txt):
        st.trace = (st.trace, e.loc(ins), txt)

    def halloc(self, e, st, ins, size, how, dflt=("u",), extra=""):
        a = mk("H", (e.ctx, ins["i"], e.stamp, extra), 4096, INF, True)
        st.heap[a.id] = ("live", size, (how, e.loc(ins)), None)
        st.mem[a.id] = Obj(dflt); st.own.add(a.id)
        return a

    # ------------------------------------------------------------- strings
    def strlen(self, e, st, addr, ins=None):
        addr = st.norm(addr)
        b, off = split(addr)
        if b is None:
            return self.F(e, ins, ("sl", addr), 0) if ins else ZERO
        a = ATOMS[b]
        if a.kind == "G" and not off[1]:
            g = e.p.globals.get(a.args[0])
            if g is not None and g["const"] and not g["decl"]:
                d = {c[0]: c[2] for c in g.get("init", ()) if c[1] == 1}
                n = off[0]
                while n < g["size"]:
                    c = d.get(n)
                    if c is None or int(c[1]) == 0:
                        return C(n - off[0])
                    n += 1
        o = st.mem.get(b)
        if o is not None:
            c = o.cells.get(("sl", off))
            if c is not None:
                return st.norm(c[1])
            c = o.cells.get(off)
            if c is not None and c[0] == 1 and st.norm(c[1]) == ZERO:
                return ZERO
        if a.inp and (o is None or (not o.cells and not o.ovl)):
            return V(mk("SL", (addr,), 0, 1 << 62))
        site = (e.ctx, ins["i"] if ins else 0, e.stamp, ("slv", addr))
        v = V(mk("F", site, 0, 1 << 62))
        o = st.wobj(b)
        # a terminator known to be in place bounds the length
        for co, cv in o.cells.items():
            if isinstance(co[0], str):
                continue
            if st.norm(cv[1]) == ZERO:
                d = sub(co, off)
                if st.le0(neg(d)):
                    st.add_le(sub(v, d))
        o.cells[("sl", off)] = (0, v)
        return v

    def setsl(self, st, addr, n):
        b, off = split(st.norm(addr))
        if b is not None:
            st.wobj(b).cells[("sl", off)] = (0, n)

    # ------------------------------------------------------------- intrinsics
    def intrinsic(self, e, st, ins, name, args):
        if name.startswith("llvm.mem"):
            p, n = args[0], args[2]
            n = e.zx(st, n, 64) if st.lb(n) >= 0 else n
            if st.ub(n) <= 0 and st.lb(n) >= 0:
                return None
            if not e.deref(st, p, ins, "write"):
                return []
            if "cpy" in name or "move" in name:
                if not e.deref(st, args[1], ins, "read"):
                    return []
                if e.watch:
                    e.watch(e, st, ins, st.norm(args[1]), n, "r", None)
            if e.watch:
                e.watch(e, st, ins, st.norm(p), n, "w", None)
            e.wevent(st, p, n, ins, "memset" if "set" in name else "copy")
            if "set" in name:
                if st.norm(args[1]) == ZERO:
                    e.write_region(st, p, n, ("z",))
                else:
                    t = mk("F", (e.ctx, ins["i"], e.stamp, "set"))
                    e.write_region(st, p, n, ("D", t.id, split(st.norm(p))[1]))
            else:
                self.copy(e, st, ins, p, args[1], n)
            return None
        if name.startswith("llvm.va_start"):
            # the arguments lie somewhere behind the list; what they are is not known
            t = mk("F", (e.ctx, ins["i"], e.stamp, "va"))
            e.write_region(st, args[0], C(24), ("D", t.id, ZERO))
            e.write(st, args[0], 4, self.F(e, ins, "gp", 0, 48))
            e.write(st, addc(args[0], 8), 8, self.F(e, ins, "overflow", 4096, INF, True))
            e.write(st, addc(args[0], 16), 8, self.F(e, ins, "registers", 4096, INF, True))
            return None
        if name.startswith("llvm.stacksave") or name.startswith("llvm.va") or name.startswith("llvm.lifetime") \
           or name.startswith("llvm.dbg") or name.startswith("llvm.stackrestore") or name.startswith("llvm.assume"):
            self.ret(st, ins, ZERO) if ins["t"] == "void" else self.ret(st, ins, self.F(e, ins))
            return None
        if name.startswith("llvm.umax") or name.startswith("llvm.umin") or name.startswith("llvm.smax") or name.startswith("llvm.smin"):
            w = int(ins["t"][1:])
            out = []
            mx = "max" in name
            vs = []
            if name[5] == "u":
                for s1, x in e.U(st, args[0], w):
                    for s2, y in e.U(s1, args[1], w):
                        vs.append((s2, x, y))
            else:
                vs = [(st, e.sx(st, args[0], w), e.sx(st, args[1], w))]
            for s, x, y in vs:
                s2 = s.copy()
                if s2.add_le(sub(x, y)):
                    s2.env[ins["i"]] = y if mx else x
                    out.append(s2)
                if s.add_le(addc(sub(y, x), 1)):
                    s.env[ins["i"]] = x if mx else y
                    out.append(s)
            return out
        e.stats["unknown_ext"].add(name)
        self.ret(st, ins, self.F(e, ins))
        return None

    def copy(self, e, st, ins, dst, src, n):
        e.copy_mem(st, dst, src, n)

    # ------------------------------------------------------------- user callbacks
    def callback(self, e, st, ins, f):
        e.emit(st, "callback", (f,), ins, None, facts=False)
        self.ret(st, ins, self.F(e, ins, "cb", ptr=ins["t"] == "ptr", lo=0 if ins["t"] == "ptr" else -INF))
        return None

    # ------------------------------------------------------------- externals
    def extern(self, e, st, ins, name, args):
        name = name.replace("__isoc99_", "").replace("64", "") if name.endswith("64") else name
        h = getattr(self, "x_" + name, None)
        if h is not None:
            return h(e, st, ins, args)
        if name in NORETURN:
            return []
        if name in PURE:
            r = PURE[name]
            self.ret(st, ins, self.F(e, ins, "", *(r or (-INF, INF))))
            return None
        if name in OSCALL:
            return self.oscall(e, st, ins, name, args)
        if name in OSPTR:
            return self.osptr(e, st, ins, name, args)
        e.stats["unknown_ext"].add(name)
        # unknown function: it may write whatever it is given a pointer to
        for a in args:
            b, off = split(st.norm(a))
            if b is not None and (ATOMS[b].ptr):
                t = mk("F", (e.ctx, ins["i"], e.stamp, "clob", b))
                e.write_region(st, (0, ((b, 1),)), None, ("D", t.id, ZERO))
        p = ins["t"] == "ptr"
        self.ret(st, ins, self.F(e, ins, "", 0 if p else -INF, INF, p))
        return None

    def mark(self, e, st, ins, name, args):
        if self.marks:
            st.marks = st.marks | frozenset([("os", name, e.loc(ins)) + tuple(args)])

    def oscall(self, e, st, ins, name, args):
        self.mark(e, st, ins, name, args)
        if name in ("seekdir", "rewinddir"):
            self.ret(st, ins, ZERO)
            return None
        s2 = st.copy()
        self.seterr(e, s2, ins)
        self.ret(s2, ins, C(-1))
        self.note(s2, e, ins, name + " fails")
        for n, sz in OSCALL[name]:
            if n < len(args):
                L = C(sz) if isinstance(sz, int) else (args[sz[1]] if sz[1] < len(args) else None)
                if L is not None:
                    if not st.le0(L):
                        if not e.deref(st, args[n], ins, "write"):
                            return [s2]
                        e.wevent(st, args[n], L, ins, name)
                        t = mk("F", (e.ctx, ins["i"], e.stamp, "os", n))
                        e.write_region(st, args[n], L, ("D", t.id, split(st.norm(args[n]))[1]))
        r = self.F(e, ins, "", 0, (1 << 31) - 1 if ins["t"] == "i32" else INF)
        if name in ("read", "pread", "readlink"):
            st.add_le(sub(r, args[2]))
        self.ret(st, ins, r)
        return [st, s2]

    def osptr(self, e, st, ins, name, args):
        self.mark(e, st, ins, name, args)
        s2 = st.copy()
        self.seterr(e, s2, ins)
        self.ret(s2, ins, ZERO)
        if name == "getcwd":
            e.wevent(st, args[0], args[1], ins, name)
        self.ret(st, ins, self.F(e, ins, "", 4096, INF, True))
        return [st, s2]

    def x___errno_location(self, e, st, ins, args):
        self.ret(st, ins, errno_addr())

    def x___assert_fail(self, e, st, ins, args):
        g = split(args[0])[0]
        txt = "?"
        if g is not None and ATOMS[g].kind == "G":
            gi = e.p.globals.get(ATOMS[g].args[0])
            if gi:
                txt = "".join(chr(int(c[2][1]) & 255) for c in gi.get("init", ()) if int(c[2][1]))
        e.emit(st, "abort", (), ins, txt)
        return []

    # memory
    def oom(self, e, st, ins, what):
        if self.nofail:
            return []
        s2 = st.copy()
        self.ret(s2, ins, ZERO)
        self.seterr(e, s2, ins, 12)
        self.fault(s2, "oom")
        self.note(s2, e, ins, what + " returns NULL")
        return [s2]

    def size(self, e, st, n):
        n = st.norm(n)
        return n

    def x_malloc(self, e, st, ins, args):
        bad = self.oom(e, st, ins, "malloc")
        a = self.halloc(e, st, ins, self.size(e, st, args[0]), "malloc")
        self.ret(st, ins, V(a))
        return [st] + bad

    def x_calloc(self, e, st, ins, args):
        bad = self.oom(e, st, ins, "calloc")
        x, y = st.norm(args[0]), st.norm(args[1])
        if not x[1]:
            sz = scale(y, x[0])
        elif not y[1]:
            sz = scale(x, y[0])
        else:
            sz = V(mk("OP", ("mul", min(x, y), max(x, y)), 0))
        a = self.halloc(e, st, ins, sz, "calloc", ("z",))
        self.ret(st, ins, V(a))
        return [st] + bad

    def x_realloc(self, e, st, ins, args):
        p, n = st.norm(args[0]), st.norm(args[1])
        out = []
        # realloc(p, 0) frees
        z = st.ev(("eq", n))
        if z is not False:
            s0 = st.copy()
            if s0.assume(("eq", n)):
                isn = s0.ev(("eq", p))
                if isn is not True:
                    if e.free(s0, p, ins):
                        self.ret(s0, ins, ZERO)
                        self.note(s0, e, ins, "realloc with size zero frees the block and returns NULL")
                        out.append(s0)
            if z is True or not st.assume(("ne", n)):
                return out
        out.extend(self.oom(e, st, ins, "realloc"))
        # p == NULL
        isn = st.ev(("eq", p))
        if isn is not False:
            s0 = st if isn is True else st.copy()
            if isn is True or s0.assume(("eq", p)):
                a = self.halloc(e, s0, ins, n, "realloc", ("u",), "n")
                self.ret(s0, ins, V(a))
                out.append(s0)
            if isn is True:
                return out
            if not st.assume(("ne", p)):
                return out
        b, off = split(p)
        if b is None:
            return out
        if ATOMS[b].kind == "H" and b in st.heap:
            old = st.mem.get(b)
            dfl = old.dflt if old else ("u",)
            osz = st.heap[b][1]
            a = self.halloc(e, st, ins, n, "realloc", dfl)
            if old:
                no = st.wobj(a.id)
                no.cells = {k: v for k, v in old.cells.items()}
                no.ovl = old.ovl
        else:
            a = self.halloc(e, st, ins, n, "realloc", ("E", p, ZERO))
            o = st.mem.get(b)
            if o is not None and (o.cells or o.ovl):
                no = st.wobj(a.id)
                sh = lambda k: k[:2] + (sub(k[2], off),) if k[0] in ("D", "E") else k
                no.dflt = sh(o.dflt)
                no.ovl = tuple((sub(x[0], off), x[1], sh(x[2])) for x in o.ovl)
                no.cells = {sub(co, off): cv for co, cv in o.cells.items() if not isinstance(co[0], str)}
        if not e.free(st, p, ins):
            return out
        self.ret(st, ins, V(a))
        out.append(st)
        return out

    def x_free(self, e, st, ins, args):
        p = st.norm(args[0])
        if not e.free(st, p, ins):
            return []

    def x_strdup(self, e, st, ins, args):
        if not e.deref(st, args[0], ins, "read"):
            return []
        n = self.strlen(e, st, args[0], ins)
        bad = self.oom(e, st, ins, "strdup")
        a = self.halloc(e, st, ins, addc(n, 1), "strdup")
        t = mk("F", (e.ctx, ins["i"], e.stamp, "dup"))
        e.write_region(st, V(a), addc(n, 1), ("D", t.id, ZERO))
        e.write(st, add(V(a), n), 1, ZERO)
        self.setsl(st, V(a), n)
        self.ret(st, ins, V(a))
        return [st] + bad

    def x_strndup(self, e, st, ins, args):
        if not e.deref(st, args[0], ins, "read"):
            return []
        bad = self.oom(e, st, ins, "strndup")
        n = self.F(e, ins, "n", 0)
        st.add_le(sub(n, args[1]))
        a = self.halloc(e, st, ins, addc(n, 1), "strndup")
        t = mk("F", (e.ctx, ins["i"], e.stamp, "dup"))
        e.write_region(st, V(a), addc(n, 1), ("D", t.id, ZERO))
        self.setsl(st, V(a), n)
        self.ret(st, ins, V(a))
        return [st] + bad

    def x_strlen(self, e, st, ins, args):
        if not e.deref(st, args[0], ins, "read"):
            return []
        self.ret(st, ins, self.strlen(e, st, args[0], ins))

    def x_strnlen(self, e, st, ins, args):
        if not e.deref(st, args[0], ins, "read"):
            return []
        n = self.strlen(e, st, args[0], ins)
        s2 = st.copy(); out = []
        if s2.add_le(sub(n, args[1])):
            self.ret(s2, ins, n); out.append(s2)
        if st.add_le(addc(sub(args[1], n), 1)):
            self.ret(st, ins, args[1]); out.append(st)
        return out

    def cmp(self, e, st, ins, args):
        for a in args[:2]:
            if not e.deref(st, a, ins, "read"):
                return []
        if st.norm(args[0]) == st.norm(args[1]):
            self.ret(st, ins, ZERO)
            return None
        nm = ins["callee"][1]
        # a comparison is a function of its operands while memory is unchanged: one atom per operand pair and epoch
        self.ret(st, ins, self.F(e, ins, ("cmp", nm) + tuple(st.norm(a) for a in args), -255, 255))
        return None
    x_strcmp = cmp; x_strncmp = cmp; x_memcmp = cmp; x_strcasecmp = cmp; x_strncasecmp = cmp

    def find(self, e, st, ins, args):
        for a in args[:2]:
            if ins["callee"][1] in ("strchr", "strrchr", "memchr") and a is args[1]:
                continue
            if not e.deref(st, a, ins, "read"):
                return []
        nm = ins["callee"][1]
        s2 = st.copy()
        self.ret(s2, ins, ZERO)
        o = self.F(e, ins, ("pos",), 0)
        n = self.strlen(e, st, args[0], ins)
        if nm == "memchr":
            n = addc(args[2], -1)
        k = 0
        if nm == "strstr":
            m = self.strlen(e, st, args[1], ins)
            st.add_le(add(sub(o, n), m))
        elif st.norm(args[1]) == ZERO:
            st.add_le(sub(o, n))
        else:
            st.add_le(addc(sub(o, n), 1))
        self.ret(st, ins, add(args[0], o))
        # the string continues behind the match
        b, off = split(st.norm(args[0]))
        if nm != "memchr" and b is not None:
            bb, oo = split(st.norm(add(args[0], o)))
            ob = st.wobj(bb)
            ob.cells[("sl", oo)] = (0, sub(n, o))
        return [st, s2]
    x_strstr = find; x_strchr = find; x_strrchr = find; x_memchr = find

    def opaque(self, e, st, ins, p, n, what=""):
        t = mk("F", (e.ctx, ins["i"], e.stamp, "opq", what))
        e.write_region(st, p, n, ("D", t.id, split(st.norm(p))[1]))

    def x_strncpy(self, e, st, ins, args):
        d, s, n = args[0], args[1], st.norm(args[2])
        if not e.deref(st, d, ins, "write") or not e.deref(st, s, ins, "read"):
            return []
        e.wevent(st, d, n, ins, "strncpy")
        self.opaque(e, st, ins, d, n)
        self.ret(st, ins, d)

    def x_strcpy(self, e, st, ins, args):
        d, s = args[0], args[1]
        if not e.deref(st, d, ins, "write") or not e.deref(st, s, ins, "read"):
            return []
        n = self.strlen(e, st, s, ins)
        e.wevent(st, d, addc(n, 1), ins, "strcpy")
        self.opaque(e, st, ins, d, addc(n, 1))
        e.write(st, add(d, n), 1, ZERO)
        self.setsl(st, d, n)
        self.ret(st, ins, d)
    x_stpcpy = x_strcpy

    def x_strcat(self, e, st, ins, args):
        d, s = args[0], args[1]
        if not e.deref(st, d, ins, "write") or not e.deref(st, s, ins, "read"):
            return []
        m = self.strlen(e, st, d, ins); n = self.strlen(e, st, s, ins)
        e.wevent(st, add(d, m), addc(n, 1), ins, "strcat")
        self.opaque(e, st, ins, add(d, m), addc(n, 1))
        e.write(st, add(add(d, m), n), 1, ZERO)
        self.setsl(st, d, add(m, n))
        self.ret(st, ins, d)

    def x_strncat(self, e, st, ins, args):
        d, s = args[0], args[1]
        if not e.deref(st, d, ins, "write") or not e.deref(st, s, ins, "read"):
            return []
        m = self.strlen(e, st, d, ins)
        e.wevent(st, add(d, m), addc(args[2], 1), ins, "strncat")
        self.opaque(e, st, ins, add(d, m), addc(args[2], 1))
        self.ret(st, ins, d)

    def x_snprintf(self, e, st, ins, args):
        d, n = args[0], st.norm(args[1])
        r = self.F(e, ins, "len", 0)
        if st.ev(("eq", n)) is not True:
            if st.ev(("ne", d)) is not True and st.ev(("eq", d)) is None:
                pass
            if st.ev(("eq", d)) is True:
                self.ret(st, ins, r); return None
            if not e.deref(st, d, ins, "write"):
                return []
            e.wevent(st, d, n, ins, "snprintf")
            self.opaque(e, st, ins, d, n)
            b, off = split(st.norm(d))
            sl = self.F(e, ins, "sl", 0)
            st.add_le(addc(sub(sl, n), 1))
            self.setsl(st, d, sl)
        self.ret(st, ins, r)
        return None
    x_vsnprintf = x_snprintf

    def x_memcpy(self, e, st, ins, args):
        r = self.intrinsic(e, st, ins, "llvm.memcpy", args)
        if r is None:
            self.ret(st, ins, args[0])
        return r
    def x_memmove(self, e, st, ins, args):
        return self.x_memcpy(e, st, ins, args)
    def x_memset(self, e, st, ins, args):
        r = self.intrinsic(e, st, ins, "llvm.memset", args)
        if r is None:
            self.ret(st, ins, args[0])
        return r

    # zlib
    def x_uncompress(self, e, st, ins, args):
        d, pl, s, n = args[:4]
        for p in (d, pl, s):
            if not e.deref(st, p, ins, "access"):
                return []
        cap = e.read(st, pl, 8, False)
        e.wevent(st, d, cap, ins, "uncompress")
        out = []
        if not self.nofail:
            s2 = st.copy()
            self.opaque(e, s2, ins, d, cap, "bad")
            e.write(s2, pl, 8, self.F(e, ins, "badlen", 0))
            rr = self.F(e, ins, "zerr", -6, 2)
            s2.add_ne(rr)
            self.ret(s2, ins, rr)
            self.fault(s2, "decode")
            self.note(s2, e, ins, "decompression fails")
            out.append(s2)
        self.opaque(e, st, ins, d, cap, "ok")
        o = self.F(e, ins, "outlen", 0)
        st.add_le(sub(o, cap))
        e.write(st, pl, 8, o)
        self.ret(st, ins, ZERO)
        return [st] + out
    x_uncompress2 = x_uncompress

    # locks
    def x_pthread_mutex_lock(self, e, st, ins, args):
        if not e.deref(st, args[0], ins, "lock"):
            return []
        L = st.norm(args[0])
        e.lock_event(st, L, ins)
        st.locks = st.locks + (L,)
        self.ret(st, ins, ZERO)

    def x_pthread_mutex_trylock(self, e, st, ins, args):
        s2 = st.copy()
        self.ret(s2, ins, C(16))
        r = self.x_pthread_mutex_lock(e, st, ins, args)
        return [s2] if r == [] else [st, s2]

    def x_pthread_mutex_unlock(self, e, st, ins, args):
        if not e.deref(st, args[0], ins, "unlock"):
            return []
        L = st.norm(args[0])
        e.unlock(st, L, ins)
        self.ret(st, ins, ZERO)

    def x_pthread_mutex_init(self, e, st, ins, args):
        if not e.deref(st, args[0], ins, "write"):
            return []
        self.opaque(e, st, ins, args[0], C(40), "mtx")
        self.ret(st, ins, ZERO)

    def x_pthread_mutex_destroy(self, e, st, ins, args):
        if not e.deref(st, args[0], ins, "destroy"):
            return []
        L = st.norm(args[0])
        e.emit(st, "mdestroy", (L,), ins)
        self.ret(st, ins, ZERO)

    # descriptors and streams
    def x_dup(self, e, st, ins, args):
        s2 = st.copy()
        self.ret(s2, ins, C(-1)); self.seterr(e, s2, ins); self.fault(s2, "fd")
        self.note(s2, e, ins, "dup fails")
        f = self.F(e, ins, "fd", 0, (1 << 30) - 1)
        st.res[f] = ("open", "fd", e.loc(ins))
        self.ret(st, ins, f)
        return [st] if self.nofail else [st, s2]

    def x_close(self, e, st, ins, args):
        self.mark(e, st, ins, "close", args)
        f = st.norm(args[0])
        self.rclose(e, st, ins, f, "fd")
        s2 = st.copy()
        self.ret(s2, ins, C(-1)); self.seterr(e, s2, ins)
        self.ret(st, ins, ZERO)
        return [st, s2]

    def rclose(self, e, st, ins, f, kind):
        if st.ub(f) < 0 and kind == "fd":
            e.finding("badclose", st, ins, "close of an invalid descriptor (%s)" % show(f))
            return
        for k in st.res:
            if k == f or st.is0(sub(k, f)):
                v = st.res[k]
                if v[0] == "open":
                    del st.res[k]
                    st.res[k] = ("done", kind, e.loc(ins))
                else:
                    e.finding("dclose", st, ins, "%s closed twice (first at line %s)" % (kind, v[2][1]))
                return
        st.res[f] = ("closed", kind, e.loc(ins))

    def x_fopen(self, e, st, ins, args):
        for a in args[:2]:
            if not e.deref(st, a, ins, "read"):
                return []
        s2 = st.copy()
        self.ret(s2, ins, ZERO); self.seterr(e, s2, ins); self.fault(s2, "io")
        self.note(s2, e, ins, "fopen fails")
        f = self.F(e, ins, "file", 4096, INF, True)
        st.res[f] = ("open", "FILE", e.loc(ins), st.norm(args[0]))
        e.emit(st, "hostfile", (st.norm(args[0]),), ins, "fopen", facts=False)
        self.ret(st, ins, f)
        return [st, s2]

    def x_fclose(self, e, st, ins, args):
        f = st.norm(args[0])
        if not e.deref(st, f, ins, "fclose"):
            return []
        self.rclose(e, st, ins, f, "FILE")
        s2 = st.copy()
        self.ret(s2, ins, C(-1)); self.seterr(e, s2, ins); self.fault(s2, "io")
        self.note(s2, e, ins, "fclose fails")
        self.ret(st, ins, ZERO)
        return [st, s2]

    def x_fwrite(self, e, st, ins, args):
        for a in (args[0], args[3]):
            if not e.deref(st, a, ins, "read"):
                return []
        a, b = st.norm(args[1]), st.norm(args[2])
        n = b
        s2 = st.copy()
        r = self.F(e, ins, "short", 0)
        s2.add_le(addc(sub(r, n), 1))
        self.ret(s2, ins, r); self.seterr(e, s2, ins); self.fault(s2, "io")
        self.note(s2, e, ins, "fwrite is short")
        self.ret(st, ins, n)
        return [st, s2]

    def x_closedir(self, e, st, ins, args):
        self.mark(e, st, ins, "closedir", args)
        return self.oscall(e, st, ins, "rmdir", args) if False else self._m1(e, st, ins)
    def _m1(self, e, st, ins):
        s2 = st.copy()
        self.ret(s2, ins, C(-1)); self.seterr(e, s2, ins)
        self.ret(st, ins, ZERO)
        return [st, s2]

    def x_getenv(self, e, st, ins, args):
        s2 = st.copy()
        self.ret(s2, ins, ZERO)
        self.ret(st, ins, self.F(e, ins, "", 4096, INF, True))
        return [st, s2]

    def x_qsort(self, e, st, ins, args):
        b, off = split(st.norm(args[0]))
        if b is not None:
            n = st.norm(args[1])
            e.emit(st, "qsort", (), ins, None, facts=False)
            if st.ub(n) > 0 or st.lb(n) < 0:
                self.opaque(e, st, ins, args[0], scale(n, st.norm(args[2])[0]) if not st.norm(args[2])[1] else None, "sorted")
        return None
