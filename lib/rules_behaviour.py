"""C13, C17, C19, C20, C21: what the calls make of an object's kind and attributes, of positions, and of an image offered."""
from rules_layout import *
from engine import CUT

DT = {"fifo": 1, "chr": 2, "dir": 4, "blk": 6, "reg": 8, "lnk": 10, "sock": 12}
UNKNOWN_KINDS = (0, 15, 16, 255, 0x102, 0x8002)

class World(Stream):
    """the layers below a call as functions with a chosen outcome"""
    def token(self, e, *a):
        return mk("OP", a)
    def x_sqfs_inode_get(self, e, st, ins, args):
        fs, ino, i = args[:3]
        o = self.out.get("inode_get", 0)
        st.marks = st.marks | frozenset([("inode_get", fs, i)])
        self.record(e, st, ino, C(e.p.dis["sqfs_inode"]["size"]), mk("OP", ("inode" if not o else "junk", fs, i)), ZERO)
        self.ret(st, ins, C(o))
    def x_sqfs_lookup_path_inner(self, e, st, ins, args):
        fs, ino, path, found, follow = args[:5]
        o = self.out.get("lookup", "ok")
        st.marks = st.marks | frozenset([("lookup", fs, path, follow)])
        self.record(e, st, ino, C(e.p.dis["sqfs_inode"]["size"]), mk("OP", ("looked", path, follow)), ZERO)
        e.write(st, found, 2, C(1 if o == "ok" else 0))
        self.ret(st, ins, C(0 if isinstance(o, str) else o))
    def x_sqfs_dir_open(self, e, st, ins, args):
        fs, ino, d, off = args[:4]
        st.marks = st.marks | frozenset([("dir_open", ino, d, off)])
        self.record(e, st, d, C(e.p.dis["sqfs_dir"]["size"]), mk("OP", ("opened", ino)), ZERO)
        self.ret(st, ins, C(self.out.get("dir_open", 0)))
    def x_sqfs_dir_next(self, e, st, ins, args):
        """a directory whose n-th entry has drawn attributes; the number of entries already read is kept in the marks"""
        fs, d, ent, err = args[:4]
        o = self.out.get("dir_next", "entry")
        n = sum(1 for m in st.marks if m[0] == "next")
        if o == "end1":
            o = "entry" if n == 0 else "end"
        st.marks = st.marks | frozenset([("next", C(n), d)])
        e.write(st, err, 4, C(5 if o == "err" else 0))
        if o != "entry":
            self.ret(st, ins, ZERO); return
        f = {m[0]: (m[1], m[2]) for m in e.p.dis["sqfs_dir_entry"]["members"]}
        def put(name, v):
            e.write(st, addc(ent, f[name][0]), f[name][1], v)
        k = self.out.get("kind")
        put("type", C(k) if k is not None else V(mk("OP", ("draw", "type%d" % n), 1, 14)))
        put("inode_number", V(mk("OP", ("draw", "number%d" % n), 0, (1 << 32) - 1)))
        size = V(mk("OP", ("draw", "size%d" % n), 1, 256))
        put("name_size", size)
        if "name" in f:
            buf = e.read(st, addc(ent, f["name"][0]), 8, True, "sqfs_dir_entry.name", "*")
            self.record(e, st, buf, size, mk("OP", ("name", C(n))), ZERO)
        self.ret(st, ins, ONE)
    def x_sqfs_read_range(self, e, st, ins, args):
        fs, node, start, size, buf = args[:5]
        n = e.read(st, size, 8)
        st.marks = st.marks | frozenset([("range", fs, node, start, n, buf)])
        e.write(st, size, 8, V(mk("OP", ("draw", "count"), 0, (1 << 40))))
        self.ret(st, ins, C(self.out.get("read_range", 0)))
    def x_dup(self, e, st, ins, args):
        self.ret(st, ins, C(self.out.get("dup", 7)))
    def x_close(self, e, st, ins, args):
        self.ret(st, ins, ZERO)
    def x_gnu_dev_makedev(self, e, st, ins, args):
        self.ret(st, ins, V(mk("OP", ("makedev", e.zx(st, args[0], 32) if st.lb(args[0]) < 0 else args[0], e.zx(st, args[1], 32) if st.lb(args[1]) < 0 else args[1]), 0)))

# ---- places: the same expression as a term of the analysis and as an address under an assignment
class Arg:
    def __init__(self, n): self.n = n
    def term(self, L, s, a): return a[self.n]
class Glob:
    def __init__(self, name): self.name = name
    def term(self, L, s, a): return V(gvar(self.name))
class Fld:
    """the pointer in a member"""
    def __init__(self, base, struct, path): self.base, self.struct, self.path = base, struct, path
    def term(self, L, s, a): return L.rd(s, self.base.term(L, s, a), self.struct, self.path)
class Elem:
    def __init__(self, base, off, ty): self.base, self.off, self.ty = base, off, ty
    def term(self, L, s, a): return L.e.read(s, addc(self.base.term(L, s, a), self.off), 8, True, "", self.ty)
class Plus:
    def __init__(self, base, off): self.base, self.off = base, off
    def term(self, L, s, a): return addc(self.base.term(L, s, a), self.off)

class Case:
    """values given to members before a call"""
    def __init__(self, L, *pins):
        self.L = L; self.pins = []; self.pre = []; self.nonnull = []; self.args = {}
        for p in pins:
            self.pin(*p)
    def pin(self, place, struct, path, v):
        self.pins.append((place, struct, path, v)); return self
    def live(self, *places):
        self.nonnull += places; return self
    def arg(self, n, v):
        self.args[n] = v; return self
    def setup(self, e, s, a):
        L = self.L
        for n, v in self.args.items():
            if not fixed(e, s, a[n], v):
                return False
        for p in self.nonnull:
            if not s.add_le(sub(ONE, p.term(L, s, a))):
                return False
        for place, struct, path, v in self.pins:
            f = L.off(struct, path)
            e.write(s, addc(place.term(L, s, a), f[0]), f[1], C(v))
        return True
    def addr(self, env, place, a):
        return M64(env.val(place.term(self.L, self.fresh(), a)))
    def fresh(self):
        s = getattr(self, "_s", None)
        if s is None:
            s = self._s = St()
        return s
    def env(self, env, a):
        for n, v in self.args.items():
            env.leaf[single(a[n]).id] = v
        for p in self.nonnull:
            self.ptr(env, p, a)
        for place, struct, path, v in self.pins:
            self.ptr(env, place, a)
            self.L.st(env, self.addr(env, place, a), struct, path, v)
    def ptr(self, env, p, a):
        """make sure that pointers on the way are valued as pointers, not as plain bytes"""
        if isinstance(p, (Fld, Elem, Plus)):
            self.ptr(env, p.base, a)
            if not isinstance(p, Plus):
                off = self.L.off(p.struct, p.path)[0] if isinstance(p, Fld) else p.off
                env.mem(M64(self.addr(env, p.base, a) + off), 8, True)

def kinds(L):
    for fn in ("sqfs_mode",):
        if L.ctx.defined(fn):
            a = L.args(fn)
            for k in list(range(1, 15)) + list(UNKNOWN_KINDS) + [-1]:
                want = S_IF[KINDS[k]] if k in KINDS else 0
                L.run(fn, "kind %d" % k, lambda e, s, ar, k=k: fixed(e, s, ar[0], k), lambda env, k=k: env.leaf.update({single(a[0]).id: k}),
                      lambda env: [("the type bits", 4, lambda x: ("map", x.ret, lambda v: v & S_IFMT), want)])
    for fn in ("sqfs_dentry_mode", "sqfs_dentry_is_dir"):
        if not L.ctx.defined(fn):
            continue
        a = L.args(fn)
        for k in list(range(1, 15)) + list(UNKNOWN_KINDS):
            c = Case(L, (Arg(0), "sqfs_dir_entry", "type", k))
            want = S_IF[KINDS[k]] if k in KINDS else 0
            if fn == "sqfs_dentry_mode":
                w = lambda env, want=want: [("the type bits", 4, lambda x: ("map", x.ret, lambda v: v & S_IFMT), want)]
            else:
                w = lambda env, want=want: [("whether it is a directory", 1, truth(lambda x: x.ret), int(want == S_IF["dir"]))]
            L.run(fn, "an entry of kind %d" % k, c.setup, lambda env: c.env(env, a), w)

def entry_types(L):
    fn = "squash_readdir"
    if not L.ctx.defined(fn):
        return
    a = L.args(fn)
    for k in list(range(1, 15)) + list(UNKNOWN_KINDS):
        c = Case(L, (Arg(0), "SQUASH_DIR", "loc", 0), (Arg(0), "SQUASH_DIR", "actual_nr", 0), (Arg(0), "SQUASH_DIR", "nr", 10)).live(Fld(Arg(0), "SQUASH_DIR", "entries"))
        L.m.out = {"kind": k}
        L.run(fn, "an entry of kind %d" % k, c.setup, lambda env: c.env(env, a),
              lambda env: [("the type of the entry", 1, lambda x: L.at(x, x.ret, "dirent", "d_type"), DT[KINDS[k]] if k in KINDS else 0)], opaque=("sqfs_dir_next",))
    L.m.out = {}

@rule("C13")
def c13(ctx):
    ctx.L = L = Layout(ctx, 12 if ctx.tier == "quick" else 100, World)
    ctx.need("sqfs_mode", "sqfs_inode_get")
    guard(L, kinds)
    guard(L, entry_types)
    L2 = Layout(ctx, 12 if ctx.tier == "quick" else 100)
    guard(L2, inode_queries, sorted(RECORD) + [0, 15, 0x0101, 0x8002], False)
    L.nq += L2.nq; L.done += L2.done; L.skipped += L2.skipped
    for k in ("compared", "unresolved", "cases", "cut"):
        setattr(L.j, k, getattr(L.j, k) + getattr(L2.j, k))
    return finish(L, "for each of the fourteen recorded kinds and for unknown ones the analysis derives, on every path, the mode bits computed for an object and for "
                  "a directory entry and the entry type reported by readdir, and compares them with the one POSIX type of that kind; an unknown kind must "
                  "fail to load as an object and yield no type bits and DT_UNKNOWN as an entry.")

# ---------------------------------------------------------------------------------------------- C17
CODES = {"magic": 2, "version": 3, "compression": 4}
TABLES = ("id_table", "frag_table", "export_table")

def offered(env, sb, bad):
    """a superblock that is acceptable except for the defects named"""
    r = env.r
    v = {"magic": 0x73717368, "s_major": 4, "s_minor": 0, "compression": 1, "no_ids": r.randrange(1, 1 << 16), "fragments": r.randrange(1, 1 << 20), "inodes": r.randrange(1, 1 << 20)}
    if "magic" in bad:
        v["magic"] = r.choice((0x68737173, 0, 0x73717367, 0x73717369, 0x73710000, 0x00007368, 0x71736873, r.randrange(1 << 32) & ~0xff, 0x73717368 ^ (1 << r.randrange(32))))
    if "version" in bad:
        v["s_major"], v["s_minor"] = r.choice(((3, 0), (5, 0), (4, 1), (4, 0xffff), (0, 0), (3, 1), (5, 1), (260, 0), (4, 0x100), (0x8004, 0), (0x104, 0), (4, 0x8000), (2, 0), (4, 2), (0xffff, 0)))
    if "compression" in bad:
        v["compression"] = r.choice((0, 2, 3, 4, 5, 6, 0x101, 0xffff, 0x8001, 7, 0x100))
    for n, x in v.items():
        env.put(sb + SB[n][0], SB[n][1], x)
    if bad:
        for n in ("no_ids", "fragments", "inodes", "flags", "block_size"):
            if r.random() < .3:
                env.put(sb + SB[n][0], SB[n][1], r.choice((0, 0, 1, (1 << (8 * SB[n][1])) - 1)))
    if r.random() < .3:
        env.put(sb + SB["lookup_table_start"][0], 8, (1 << 64) - 1)

def offers(L):
    for fn in ("sqfs_init", "sqfs_open_image"):
        if not L.ctx.defined(fn):
            continue
        fs, fd, off = L.args(fn)[:3]
        L.m.nofail = True
        for opaque in (("sqfs_cache_init", "sqfs_block_cache_init", "sqfs_blockidx_init"), ()):
            for bad in ((), ("magic",), ("version",), ("compression",), ("magic", "version"), ("magic", "compression"), ("version", "compression"), ("magic", "version", "compression")):
                if not opaque and len(bad) > 1:
                    continue
                def es(env, bad=bad):
                    o = env.r.choice((0, 0, 4096, 12345))
                    env.leaf[single(off).id] = o
                    offered(env, env.val(fd) + o, bad)
                def wanted(env, bad=bad):
                    if not bad:
                        return [("the result", 4, lambda x: x.ret, 0), ("whether there is a decompressor", 1, truth(lambda x: L.at(x, fs, "sqfs", "decompressor")), 1)]
                    w = [("the heap left behind", 8, lambda x: C(sum(1 for v in x.heap.values() if v[0] == "live")), 0)]
                    if len(bad) == 1:
                        w.append(("the result", 4, lambda x: x.ret, CODES[bad[0]]))
                    else:
                        codes = [CODES[b] for b in bad]
                        w.append(("the result", 4, lambda x: ("map", x.ret, lambda v: codes[0] if v & 0xffffffff in codes else v), codes[0]))
                    return w
                L.run(fn, "an image with %s" % (("a bad " + " and ".join(bad)) if bad else "nothing wrong"), None, es, wanted, opaque=opaque)
        L.m.nofail = False
        q = L.run(fn, "an image there is no memory for", None, lambda env: False, lambda env: [], opaque=())
        for x in q.exits if q else ():
            if x.ret is not None and not x.ret[1] and x.ret[0] and CUT not in x.marks:
                n = [v for v in x.heap.values() if v[0] == "live"]
                L.j.compared += 1
                if n and not x.faults & {"lost"}:
                    L.ctx.violation("%s:left" % fn, "%s can fail and leave %d blocks behind, one allocated at line %s" % (fn, len(n), n[0][2][1][1]), fn, x.loc, x.trace)
    fn = "sqfs_decompressor_get"
    if L.ctx.defined(fn):
        t = L.args(fn)[0]
        for k in (0, 1, 2, 3, 4, 5, 6, 7, 0x101, 0xffff):
            L.run(fn, "compression %d" % k, None, lambda env: env.leaf.update({single(t).id: k}),
                  lambda env: [("whether there is a decompressor", 1, truth(lambda x: x.ret), int(k == 1))])

@rule("C17")
def c17(ctx):
    ctx.L = L = Layout(ctx, 60 if ctx.tier == "quick" else 600, World)
    ctx.need("sqfs_init")
    guard(L, offers)
    return finish(L, "opening an image is analysed for all its paths; the result and what is allocated are compared, for superblocks that are acceptable and for ones with a "
                  "wrong magic number, version or compression (alone and combined, all other fields drawn), with the code that defect has: accepted only when all three are "
                  "right, each defect with its own code, nothing left allocated when refused.")

# ---------------------------------------------------------------------------------------------- C19, C20
TABLE = Glob("squash_global_fdtable")
STAT = {"mode": (24, 4), "links": (16, 8), "device number": (40, 8), "size": (48, 8), "time of access": (72, 8), "time of modification": (88, 8), "time of change": (104, 8)}
NSEC = (80, 96, 112)

def handle(L, vfd=5, nr=100):
    """a live handle given as the first argument"""
    f = Elem(Fld(TABLE, "squash_fdtable", "fds"), 8 * vfd, "*squash_file")
    return Case(L, (TABLE, "squash_fdtable", "nr", nr)).arg(0, vfd).live(Fld(TABLE, "squash_fdtable", "fds"), f), f

def attributes(env, k, get):
    """what stat says of an object of kind k, given its recorded members"""
    dev = makedev(get("xtra.dev.major"), get("xtra.dev.minor")) if k in ("blk", "chr") else 0
    t = get("base.mtime")
    return {"mode": get("base.mode"), "links": get("nlink"), "device number": dev,
            "size": get("xtra.reg.file_size") if k == "reg" else get("xtra.symlink_size") if k == "lnk" else 0,
            "time of access": t, "time of modification": t, "time of change": t}

def stats(L):
    fn = "sqfs_stat"
    if not L.ctx.defined(fn):
        return
    a = L.args(fn); fs, ino, st = a[:3]
    for k in sorted(S_IF):
        def es(env):
            b = env.val(ino)
            L.st(env, b, "sqfs_inode", "base.mode", S_IF[k] | env.r.randrange(1 << 12))
        def wanted(env):
            b = env.val(ino)
            at = attributes(env, k, lambda p: L.ld(env, b, "sqfs_inode", p))
            return [("the result", 4, lambda x: x.ret, 0)] + [("the " + n, STAT[n][1], (lambda x, n=n: mem(addc(st, STAT[n][0]), STAT[n][1])), v) for n, v in at.items()] + \
                   [("a fraction of a second", 8, (lambda x, o=o: mem(addc(st, o), 8)), 0) for o in NSEC] + \
                   [("a member that does not apply", n, (lambda x, o=o, n=n: mem(addc(st, o), n)), 0) for o, n in ((0, 8), (8, 8), (28, 4), (32, 4), (36, 4))]
        L.run(fn, "an object of type " + k, typed(L, 1, k, L), es, wanted, opaque=())

def outcome(out):
    return ", ".join("%s %s" % (k, v) for k, v in sorted(out.items())) or "an object that is there"

def has(x, kind):
    return any(m[0] == kind for m in x.marks)

def marked(kind, n, need=None):
    """the n-th value of the one mark of a kind"""
    def term(x):
        ms = [m for m in x.marks if m[0] == kind]
        return ms[0][n] if len(ms) == 1 and (need is None or need(x)) else None
    return term

def looked(L, env, path, follow):
    """draw the object a path leads to"""
    k = env.r.choice(sorted(S_IF)); env.kind = k
    o, n = L.off("sqfs_inode", "base.mode")
    env.tok = ("looked", M64(env.val(path)), follow)
    env.putdata(env.tok, o, n, S_IF[k] | env.r.randrange(1 << 12))

def stat_of(L, env, at):
    """the attributes of the object looked up, at an address on the exit"""
    def get(p):
        o, n = L.off("sqfs_inode", p)
        return env.stream(env.tok, o, n)
    return [("the " + n, STAT[n][1], (lambda x, n=n: mem(addc(at(x), STAT[n][0]), STAT[n][1]) if at(x) is not None else None), v) for n, v in attributes(env, env.kind, get).items()]

LOWER = ("sqfs_inode_get", "sqfs_lookup_path_inner")
OUTCOMES = ({}, {"lookup": "none"}, {"lookup": 1}, {"lookup": 5}, {"inode_get": 1}, {"inode_get": 5})

def came(x, out):
    """did the outcome chosen for the layers below take place?"""
    return all(has(x, k) for k in out)

def paths(L):
    """the forms of stat: which object they describe, and when they fail"""
    for fn, follow in (("squash_stat", 1), ("squash_lstat", 0)):
        if not (L.ctx.defined(fn) and all(map(L.ctx.defined, LOWER))):
            continue
        fs, path, buf = L.args(fn)[:3]
        for out in OUTCOMES:
            L.m.out = out
            def es(env):
                looked(L, env, path, follow)
            def wanted(env):
                if out:
                    return [("the result", 4, lambda x: x.ret if came(x, out) else None, 0xffffffff)]
                ok = lambda x: has(x, "lookup")
                return [("the result", 4, lambda x: x.ret if ok(x) else None, 0),
                        ("the object looked up from", 8, marked("inode_get", 2, ok), sbval(L, env, env.val(fs), "root_inode")),
                        ("the path looked up", 8, marked("lookup", 2), env.val(path)), ("the image looked in", 8, marked("lookup", 1), env.val(fs))] + \
                       stat_of(L, env, lambda x: buf if ok(x) else None)
            L.run(fn, outcome(out), None, es, wanted, opaque=LOWER)
        L.m.out = {}

def opened(L):
    """the position of a new handle"""
    opens(L, True)

def opens(L, only=False):
    """what a new handle holds"""
    fn = "squash_open_inner"
    if not (L.ctx.defined(fn) and all(map(L.ctx.defined, LOWER))):
        return
    a = L.args(fn); fs, path = a[:2]
    L.m.nofail = True
    for follow in (0, 1):
        for nr in (100, 0, 8, 7):
            for out in OUTCOMES if nr == 100 and not only else ({},):
                L.m.out = out
                c = Case(L, (TABLE, "squash_fdtable", "nr", nr), (TABLE, "squash_fdtable", "end", min(nr, 3))).arg(2, follow)
                def es(env):
                    c.env(env, a)
                    looked(L, env, path, follow)
                def slot(x):
                    """the handle in the table on an exit"""
                    if not (has(x, "lookup") and x.ret is not None):
                        return None
                    s = state_of(x)
                    t = L.rd(s, V(gvar("squash_global_fdtable")), "squash_fdtable", "fds")
                    h = L.e.read(s, addc(t, 8 * 7), 8, True, "", "*squash_file")
                    return h if single(h) is not None and single(h).kind == "H" else None
                def wanted(env):
                    if out:
                        return [("the result", 4, lambda x: x.ret if came(x, out) else None, 0xffffffff)]
                    f = lambda p: (lambda x: L.at(x, slot(x), "squash_file", p) if slot(x) is not None else None)
                    if only:
                        return [("the position", 8, f("pos"), 0)]
                    st = L.off("squash_file", "st")
                    nd = L.off("squash_file", "node")
                    return [("the result", 4, lambda x: x.ret if has(x, "lookup") else None, 7), ("the position", 8, f("pos"), 0), ("the descriptor", 4, f("fd"), 7), ("the image", 8, f("fs"), env.val(fs)),
                            ("the object looked up from", 8, marked("inode_get", 2), sbval(L, env, env.val(fs), "root_inode")),
                            ("the path looked up", 8, marked("lookup", 2), env.val(path)), ("the image looked in", 8, marked("lookup", 1), env.val(fs)),
                            ("the object's mode", 2, f("node.base.mode"), env.stream(env.tok, *L.off("sqfs_inode", "base.mode"))),
                            ("the object's number", 4, f("node.base.inode_number"), env.stream(env.tok, *L.off("sqfs_inode", "base.inode_number")))] + \
                           stat_of(L, env, lambda x: addc(slot(x), st[0]) if slot(x) is not None else None)
                L.run(fn, "%s, %s, a table of %d" % ("following" if follow else "not following", outcome(out), nr), c.setup, es, wanted, opaque=LOWER)
    L.m.nofail = False; L.m.out = {}

def handles(L):
    """the form of stat for a handle"""
    fn = "squash_fstat"
    if not L.ctx.defined(fn):
        return
    a = L.args(fn); buf = a[1]
    st, n = L.off("squash_file", "st")
    for vfd in (0, 5, 99):
        c, f = handle(L, vfd)
        def es(env):
            c.env(env, a)
            h = c.addr(env, f, a)
            L.st(env, h, "squash_file", "pos", env.r.choice((0, env.r.randrange(1 << 20), env.r.randrange(1 << 62))))
            env.put(h + st + STAT["mode"][0], 4, S_IF[env.r.choice(("reg", "reg", "dir", "lnk"))] | 0o644)
            env.put(h + st + STAT["size"][0], 8, env.r.choice((0, env.r.randrange(1 << 20), env.r.randrange(1 << 62))))
        def wanted(env):
            h = c.addr(env, f, a)
            return [("the result", 4, lambda x: x.ret, 0)] + [("byte %d of the result" % i, 8, (lambda x, i=i: mem(addc(buf, i), 8)), env.mem(h + st + i, 8)) for i in range(0, n, 8)]
        L.run(fn, "handle %d" % vfd, c.setup, es, wanted, opaque=())
    for vfd, nr in ((100, 100), (-1, 100), (5, 0), (5, 5), (-3, 4), (101, 100), (1 << 30, 100)):
        c = Case(L, (TABLE, "squash_fdtable", "nr", nr)).arg(0, vfd)
        L.run(fn, "a handle %d of %d" % (vfd, nr), c.setup, lambda env: c.env(env, a), lambda env: [("the result", 4, lambda x: x.ret, 0xffffffff)], opaque=())

@rule("C19")
def c19(ctx):
    ctx.L = L = Layout(ctx, 40 if ctx.tier == "quick" else 400, World)
    ctx.need("sqfs_stat")
    for g in (stats, paths, opens, handles):
        guard(L, g)
    return finish(L, "every path of stat, lstat, fstat and open is analysed; what they store in the result and in a new handle is compared, member by member, with the recorded "
                  "attributes of an object of each type (drawn at full width), for each outcome of the layers below (there, not there, failing); fstat is compared byte by "
                  "byte with the handle.")

# ---------------------------------------------------------------------------------------------- C20
def pos_of(L, env, c, f, a):
    return L.ld(env, c.addr(env, f, a), "squash_file", "pos")

def reads(L):
    fn = "squash_read"
    if not (L.ctx.defined(fn) and L.ctx.defined("sqfs_read_range")):
        return
    a = L.args(fn); buf, nb = a[1:3]
    for out in ({}, {"read_range": 1}, {"read_range": 5}):
        L.m.out = out
        c, f = handle(L)
        def es(env):
            c.env(env, a)
            h = c.addr(env, f, a)
            L.st(env, h, "squash_file", "pos", env.r.choice((0, 1, env.r.randrange(1 << 40), env.r.randrange(1 << 20))))
            n = env.r.choice((0, 1, 4096, env.r.randrange(1 << 40)))
            env.free[("draw", "count")] = n
            env.leaf[single(nb).id] = max(1, n + env.r.choice((0, 0, 1, env.r.randrange(1 << 20))))
        def wanted(env):
            h = c.addr(env, f, a)
            pos = pos_of(L, env, c, f, a); n = env.free[("draw", "count")]
            fp = f.term(L, c.fresh(), a)
            ok = lambda x: has(x, "range")
            after = lambda x: L.at(x, fp, "squash_file", "pos") if ok(x) else None
            if out:
                return [("the result", 8, lambda x: x.ret if ok(x) else None, -1), ("the position after a failing read", 8, after, pos)]
            return [("the result", 8, lambda x: x.ret if ok(x) else None, n), ("the position", 8, after, pos + n), ("the position read at", 8, marked("range", 3), pos),
                    ("the size asked for", 8, marked("range", 4), env.leaf[single(nb).id]), ("the buffer", 8, marked("range", 5), env.val(buf)),
                    ("the object read", 8, marked("range", 2), h + L.off("squash_file", "node")[0]), ("the image read", 8, marked("range", 1), L.ld(env, h, "squash_file", "fs"))]
        L.run(fn, "a handle, " + outcome(out), c.setup, es, wanted, opaque=("sqfs_read_range",))
    L.m.out = {}

def seeks(L):
    fn = "squash_lseek"
    if not L.ctx.defined(fn):
        return
    a = L.args(fn); off = a[1]
    for wh in (0, 1, 2, 3, -1, 4, 0x100, 0x7fffffff):
        c, f = handle(L)
        c.arg(2, wh)
        if wh == 2:
            c.pin(f, "squash_file", "node.base.mode", 0o100644)
        def es(env):
            r = env.r
            c.env(env, a)
            h = c.addr(env, f, a)
            pos = r.choice((0, 1, 5, r.randrange(1 << 40), r.randrange(1 << 62), 1 << 31, 1 << 32))
            L.st(env, h, "squash_file", "pos", pos)
            L.st(env, h, "squash_file", "node.xtra.reg.file_size", r.choice((0, 1, r.randrange(1 << 40), 1 << 31, 1 << 32, (1 << 62) + 1)))
            env.leaf[single(off).id] = 0 if wh == 2 else r.choice((0, 1, -1, -pos, -pos - 1, -pos + 1, r.randrange(1 << 40), -r.randrange(1 << 40), 1 << 31, 1 << 32, -(1 << 31), -(1 << 32), r.randrange(1 << 61)))
        def wanted(env):
            h = c.addr(env, f, a)
            pos = pos_of(L, env, c, f, a); o = env.leaf[single(off).id]
            new = {0: o, 1: pos + o, 2: L.ld(env, h, "squash_file", "node.xtra.reg.file_size")}.get(wh, -1)
            fp = f.term(L, c.fresh(), a)
            return [("the result", 8, lambda x: x.ret, new if new >= 0 else -1), ("the position", 8, lambda x: L.at(x, fp, "squash_file", "pos"), new if new >= 0 else pos)]
        L.run(fn, "whence %d" % wh, c.setup, es, wanted, opaque=())

MOVERS = ("squash_open_inner", "squash_open", "squash_read", "squash_lseek")

def movers(L):
    """stores of a handle's position outside the calls that may move it"""
    ctx = L.ctx; p = ctx.prog; n = 0
    for f in p.fns.values():
        if f.decl:
            continue
        for B in f.blocks:
            for i in B:
                if i["op"] != "store":
                    continue
                g = f.ins.get(i["a"][1][1]) if i["a"][1][0] == "v" else None
                if g is None or g["op"] != "getelementptr" or "tag" not in g or p.tag(g["tag"])[0] != "squash_file.pos":
                    continue
                n += 1
                for r in sorted(ctx.owner(f.name, ctx.roots()) - set(MOVERS)):
                    ctx.violation("%s:moves" % r, "%s%s moves the position of a handle" % (r, "" if r == f.name else " (in %s)" % f.name), f.name, L.e.loc(i))
    ctx.cov["stores_of_a_position"] = n

@rule("C20")
def c20(ctx):
    ctx.L = L = Layout(ctx, 60 if ctx.tier == "quick" else 600, World)
    ctx.need("squash_read", "squash_lseek")
    for g in (reads, seeks, opened, movers):
        guard(L, g)
    return finish(L, "every path of open, read and seek is analysed; result, position and what is asked of the layer below are compared with the documented ones, for positions, "
                  "offsets, counts and sizes drawn over their whole range and for each directive, known and unknown; every other store of a position in the library is "
                  "attributed to the public calls that reach it.")

# ---------------------------------------------------------------------------------------------- C21
def element(L):
    """the record of an entry of a stream"""
    t = next(m[3] for m in L.ctx.prog.dis["SQUASH_DIR"]["members"] if m[0] == "entries")
    t = t.replace("const ", "").lstrip("*").strip()
    return t, L.ctx.prog.dis[t]["size"]

def readings(L):
    """one reading of a stream, from each position"""
    fn = "squash_readdir"
    if not (L.ctx.defined(fn) and L.ctx.defined("sqfs_dir_next")):
        return
    a = L.args(fn); d = a[0]
    et, esz = element(L)
    ents = Fld(Arg(0), "SQUASH_DIR", "entries")
    sys0 = L.off(et, "sysentry")[0]; name0 = L.off("dirent", "d_name")[0]
    L.m.nofail = True
    for have, loc, nr, out in ((0, 0, 10, {}), (1, 1, 10, {}), (3, 1, 10, {}), (3, 0, 10, {}), (3, 2, 10, {}), (2, 3, 10, {}), (1, 3, 10, {}), (0, 0, 0, {}), (2, 2, 2, {}), (2, 3, 3, {}), (10, 10, 10, {}),
                               (0, 0, 10, {"dir_next": "end"}), (2, 2, 10, {"dir_next": "end"}), (2, 5, 10, {"dir_next": "end"}), (2, 3, 10, {"dir_next": "end1"}), (0, 0, 0, {"dir_next": "end"}),
                               (0, 0, 10, {"dir_next": "err"}), (2, 2, 10, {"dir_next": "err"}), (2, 4, 10, {"dir_next": "err"}), (3, 1, 10, {"dir_next": "err"}), (3, 1, 10, {"dir_next": "end"}),
                               (2, -1, 10, {}), (0, -1, 10, {}), (0, -(1 << 40), 10, {})):
        L.m.out = dict(out, kind=2)
        c = Case(L, (Arg(0), "SQUASH_DIR", "loc", loc), (Arg(0), "SQUASH_DIR", "actual_nr", have), (Arg(0), "SQUASH_DIR", "nr", nr))
        if nr:
            c.live(ents)
            for i in range(have):
                c.pin(Plus(ents, i * esz), et, "not_eof", 1)
        else:
            c.pin(Arg(0), "SQUASH_DIR", "entries", 0)
        new = max(0, loc + 1 - have)                # entries to be read
        got = have > loc >= 0 or loc >= 0 and (not out or (out.get("dir_next") == "end1" and new == 1))
        grow = new and loc >= nr
        def wanted(env):
            env.val(d)
            nxt = lambda x: sum(1 for m in x.marks if m[0] == "next")
            told = lambda x: has(x, "next") or not new or loc < 0
            at = lambda x: L.at(x, d, "SQUASH_DIR", "loc") if told(x) else None
            if not got:
                return [("what is returned at %s" % ("a failing read" if out.get("dir_next") == "err" else "the end"), 8, lambda x: x.ret if told(x) else None, 0), ("the position", 8, at, loc)]
            w = [("whether an entry is returned", 1, truth(lambda x: x.ret), 1), ("the position", 8, at, loc + 1), ("the number of entries read from the image", 4, lambda x: C(nxt(x)), new)]
            if not grow:
                base = env.val(ents.term(L, c.fresh(), a))
                w.append(("the entry returned", 8, lambda x: x.ret if told(x) else None, base + loc * esz + sys0))
            body = lambda o, n: (lambda x: mem(addc(x.ret, o), n) if told(x) else None)
            if new:
                k = new - 1
                size = env.draw("size%d" % k, mk("OP", ("draw", "size%d" % k), 1, 256))
                number = env.draw("number%d" % k, mk("OP", ("draw", "number%d" % k), 0, (1 << 32) - 1))
                size = min(size, L.off("dirent", "d_name")[1] - 1)
                w += [("the number of the object", 8, body(L.off("dirent", "d_ino")[0], 8), number), ("the end of the name", 1, body(name0 + size, 1), 0)]
                w += [("the name", 1, body(name0 + i, 1), env.stream(("name", k), i, 1)) for i in {0, 1, size // 2, size - 1} if i < size]
            else:
                old = base + loc * esz + sys0
                w += [("the entry read before", 8, body(i, 8), env.mem(old + i, 8)) for i in (0, name0 & ~7, (name0 & ~7) + 8, 64, 200)]
            for i in range(min(have, 3) if nr else 0):
                # entries handed out before stay what they were
                old = env.val(ents.term(L, c.fresh(), a)) + i * esz + sys0
                e2 = (lambda x: L.rd(state_of(x), d, "SQUASH_DIR", "entries"))
                w += [("entry %d" % i, 8, (lambda x, o=o, i=i: mem(addc(e2(x), i * esz + sys0 + o), 8) if told(x) else None), env.mem(old + o, 8)) for o in (0, 24)] if i == 0 or not grow else []
            return w
        L.run(fn, "%s, at position %d of a stream with %d of %d entries read" % (out.get("dir_next", "entry"), loc, have, nr), c.setup, lambda env: c.env(env, a), wanted, opaque=("sqfs_dir_next",))
    L.m.out = {}; L.m.nofail = False

def positions(L):
    for fn, want in (("squash_telldir", None), ("squash_seekdir", 1), ("squash_rewinddir", 0)):
        if not L.ctx.defined(fn):
            continue
        a = L.args(fn); d = a[0]
        def wanted(env):
            b = env.val(d)
            loc = L.ld(env, b, "SQUASH_DIR", "loc")
            keep = [("the member %s" % m, 8 if m != "actual_nr" else 4, (lambda x, m=m: L.at(x, d, "SQUASH_DIR", m)), L.ld(env, b, "SQUASH_DIR", m)) for m in ("entries", "nr", "actual_nr", "fd")]
            if want is None:
                return [("the position told", 8, lambda x: x.ret, loc), ("the position", 8, lambda x: L.at(x, d, "SQUASH_DIR", "loc"), loc)] + keep
            return [("the position", 8, lambda x: L.at(x, d, "SQUASH_DIR", "loc"), env.val(a[1]) if want else 0)] + keep
        L.run(fn, "", None, lambda env: None, wanted, opaque=())

def streams(L):
    """a new stream"""
    fn = "squash_opendir_inner"
    if not (L.ctx.defined(fn) and all(map(L.ctx.defined, LOWER + ("sqfs_dir_open",)))):
        return
    a = L.args(fn); fs, path = a[:2]
    L.m.nofail = True
    for follow in (0, 1):
        for out in ({}, {"dir_open": 1}, {"lookup": "none"}, {"inode_get": 5}):
            L.m.out = out
            c = Case(L, (TABLE, "squash_fdtable", "nr", 100), (TABLE, "squash_fdtable", "end", 3)).arg(2, follow)
            def es(env):
                c.env(env, a)
            def wanted(env):
                if out:
                    return [("what is returned", 8, lambda x: x.ret if came(x, out) else None, 0)]
                ok = lambda x: has(x, "dir_open") and has(x, "lookup") and x.ret is not None and single(x.ret) is not None and single(x.ret).kind == "H"
                f = lambda p: (lambda x: L.at(x, x.ret, "SQUASH_DIR", p) if ok(x) else None)
                return [("the position", 8, f("loc"), 0), ("the number of entries read", 4, f("actual_nr"), 0), ("the number of entries there is room for", 8, f("nr"), 0), ("the image", 8, f("fs"), env.val(fs)),
                        ("the descriptor", 4, f("fd"), 7), ("the offset opened at", 8, lambda x: marked("dir_open", 3)(x) if ok(x) else None, 0)]
            L.run(fn, "%s, %s" % ("following" if follow else "not following", outcome(out)), c.setup, es, wanted, opaque=LOWER + ("sqfs_dir_open",))
    L.m.nofail = False; L.m.out = {}

@rule("C21")
def c21(ctx):
    ctx.L = L = Layout(ctx, 20 if ctx.tier == "quick" else 200, World)
    ctx.need("squash_readdir")
    for g in (readings, positions, streams):
        guard(L, g)
    return finish(L, "every path of readdir is analysed from each kind of position (first, next, already read, beyond what was read, at the end, after a failure, negative, with and "
                  "without room); what it returns, the position it leaves, what it asks of the image and the entries handed out before are compared with the documented ones; "
                  "likewise opening, telling, seeking and rewinding.")
