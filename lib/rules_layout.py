"""C12, C13, C17: the SquashFS 4.0 layout, and what the library makes of it."""
import os
from rules import *
from rules_image import masked, S_IF, S_IFMT, KINDS, KINDNAME, InodeLayout
from models import Models
from semantic import *

class Stream(Models):
    """sqfs_md_read as reading from one endless recorded stream: byte n of block B is stream(B)[n]"""
    blocksize = 0; wrap = False
    def __init__(self, *a, **k):
        super().__init__(*a, **k); self.out = {}
    def cursor(self, e, st, cur):
        blk = e.read(st, cur, 8, False, "sqfs_md_cursor.block")
        off = e.read(st, addc(cur, 8), 8, False, "sqfs_md_cursor.offset")
        return blk, off
    def record(self, e, st, buf, n, tok, off):
        b, boff = split(st.norm(buf))
        if b is not None:
            n = e.zx(st, n, 64) if st.lb(n) >= 0 else n
            e.write_region(st, buf, n, ("D", tok.id, sub(boff, off)))
    def x_sqfs_md_read(self, e, st, ins, args):
        fs, cur, buf, n = args[:4]
        blk, off = self.cursor(e, st, cur)
        self.record(e, st, buf, n, mk("OP", ("stream", blk)), off)
        end = st.norm(add(off, n))
        st.marks = st.marks | frozenset([("md", blk, off, n)])
        self.ret(st, ins, ZERO)
        out = []
        if self.wrap:
            # a record may reach the end of its metadata block
            s = st.copy()
            if s.add_le(sub(C(8192), end)):
                e.write(s, cur, 8, add(blk, V(mk("OP", ("mdlen", blk), 3, 8194))))
                e.write(s, addc(cur, 8), 8, addc(end, -8192))
                out.append(s)
            if not st.add_le(addc(end, -8191)):
                return out
        e.write(st, addc(cur, 8), 8, end)
        return out + [st]
    def x_sqfs_table_get(self, e, st, ins, args):
        t, fs, idx, buf = args[:4]
        self.record(e, st, buf, C(self.tables(e, st, t)), mk("OP", ("table", t, idx)), ZERO)
        st.marks = st.marks | frozenset([("table", t, idx)])
        self.ret(st, ins, ZERO)
    def tables(self, e, st, t):
        b, off = split(st.norm(t))
        if b is None or off[1]:
            return 8
        for m in (e.p.dis.get("sqfs") or {}).get("members", ()):
            if m[1] == off[0]:
                return 4 if "id" in m[0] else 16 if "frag" in m[0] else 8
        return 8
    def block(self, e, st, out, a):
        e.write(st, out, 8, V(a))
    def x_sqfs_md_cache(self, e, st, ins, args):
        fs, pos, out = args[:3]
        p = e.read(st, pos, 8, False, "")
        self.block(e, st, out, mk("OP", ("mdblk", p), 1 << 32, INF, True))
        e.write(st, pos, 8, add(p, V(mk("OP", ("mdlen", p), 3, 8194))))
        st.marks = st.marks | frozenset([("mdblk", p)])
        self.ret(st, ins, ZERO)
    def x_sqfs_data_cache(self, e, st, ins, args):
        fs, cache, pos, hdr, out = args[:5]
        a = mk("OP", ("dblk", cache, pos, hdr), 1 << 32, INF, True)
        self.block(e, st, out, a)
        m = e.p.dis.get("sqfs_block")
        if self.blocksize and m:
            for x in m["members"]:
                if x[0] == "size":
                    e.write(st, addc(V(a), x[1]), x[2], C(self.blocksize))
        st.marks = st.marks | frozenset([("dblk", cache, pos, hdr)])
        self.ret(st, ins, ZERO)
    def x_sqfs_block_read(self, e, st, ins, args):
        fs, pos, comp, size, outsize, out = args[:6]
        self.block(e, st, out, mk("OP", ("rblk", pos), 1 << 32, INF, True))
        st.marks = st.marks | frozenset([("rblk", pos, comp, size, outsize)])
        self.ret(st, ins, ZERO)

    def x_sqfs_dir_next(self, e, st, ins, args):
        """no more entries"""
        fs, d, ent, err = args[:4]
        st.marks = st.marks | frozenset([("dirnext",) + self.cursor(e, st, d)])
        e.write(st, err, 4, ZERO)
        self.ret(st, ins, ZERO)
    def x_sqfs_cache_init(self, e, st, ins, args):
        self.ret(st, ins, ZERO)
    x_sqfs_block_cache_init = x_sqfs_blockidx_init = x_sqfs_cache_init
    empty = False
    def x_sqfs_cache_get(self, e, st, ins, args):
        if self.empty:
            return self.ret(st, ins, ZERO)
        self.x_sqfs_cache_add(e, st, ins, args)
    def x_sqfs_cache_add(self, e, st, ins, args):
        st.marks = st.marks | frozenset([("slot", args[0], args[1])])
        self.ret(st, ins, V(mk("OP", ("slot", args[0], args[1]), 1 << 32, INF, True)))

def mem(addr, n):
    return ("mem", addr, n)

class Layout:
    """queries of the library's decoders against the layout"""
    def __init__(self, ctx, n=24, model=Stream):
        self.ctx = ctx
        self.m = model()
        self.e = ctx.load(models=self.m, peel=3, MAXB=96, MAXX=96, eager=False)
        self.j = Judge(ctx, self.e, n)
        self.nq = 0; self.done = []; self.skipped = []
    def off(self, struct, path):
        """(offset, size) of a member path"""
        o = 0; t = struct
        for p in path.split("."):
            m = None
            for x in (self.ctx.prog.dis.get(t) or {}).get("members", ()):
                if x[0] == p:
                    m = x
            if m is None:
                return None
            o += m[1]; size = m[2]; t = m[3]
        return o, size
    def args(self, fn):
        return [V(a) for a in self.e.ptypes(self.ctx.prog.fns[fn])]
    def at(self, x, base, struct, path):
        """what an exit left in a member"""
        f = self.off(struct, path)
        if f is None:
            return None
        return mem(addc(base, f[0]), f[1])
    def ld(self, env, base, struct, path, ptr=False):
        """what a member held at entry"""
        f = self.off(struct, path)
        return env.mem(base + f[0], f[1], ptr)
    def rd(self, s, base, struct, path):
        """a member, as the analysed code would load it"""
        f = self.off(struct, path)
        t = struct
        for p in path.split("."):
            own = t
            t = next(x[3] for x in self.ctx.prog.dis[t]["members"] if x[0] == p)
        return self.e.read(s, addc(base, f[0]), f[1], t.startswith("*"), own + "." + path.split(".")[-1], t)
    def st(self, env, base, struct, path, v):
        f = self.off(struct, path)
        env.put(base + f[0], f[1], v)
    def run(self, fn, what, setup, envsetup, wanted, opaque=("sqfs_md_read", "sqfs_table_get", "sqfs_md_cache", "sqfs_data_cache", "sqfs_block_read"), datum=None, fail=None, mark=None):
        """query a function and compare its outputs.  wanted(env) -> [(name, size, term(x), value)]"""
        if not self.ctx.defined(fn):
            return None
        e = self.e
        e.opaque = set(opaque) - {fn}
        key = (frozenset(e.opaque), repr(sorted(self.m.out.items())), self.m.nofail, self.m.wrap, self.m.empty, self.m.blocksize, e.peel)
        if getattr(self, "okey", None) != key:
            e.sums.clear(); self.okey = key
        e.datum = datum
        if datum:
            e.sums.clear()
        q = e.query(fn, setup or (lambda e, s, a: True))
        e.datum = None
        if datum:
            e.sums.clear()
        self.nq += 1
        self.j.what = (fn, what)
        if not q:
            return None
        def rep(name, x, got, want, t):
            eg = "e.g. %#x where %#x is recorded" % (got, want) if got is not None else "e.g. where %#x is recorded" % want
            self.ctx.violation("%s:%s" % (fn, name), "%s%s: %s is %s (%s)" % (fn, " of " + what if what else "", name, t[:160], eg), fn, x.loc, x.trace)
        ok = self.j.outputs(q.exits, envsetup, wanted, rep)
        self.done.append((fn, what, len(q.exits)))
        if not ok and fail:
            x = q.exits[0] if q.exits else None
            self.ctx.violation("%s:%s" % (fn, what), fail, fn, x.loc if x else ("", 0), x.trace if x else None)
        return q

# kind -> (bytes of the recorded inode, [(member of the object, offset, size recorded)])
def _dirs(nl, fs, fsz, sb, of, par, idx):
    r = [("nlink", nl, 4), ("xtra.dir.start_block", sb, 4), ("xtra.dir.dir_size", fs, fsz), ("xtra.dir.offset", of, 2), ("xtra.dir.parent_inode", par, 4)]
    return r + ([("xtra.dir.idx_count", idx, 2)] if idx else [("xtra.dir.idx_count", None, 0)])
RECORD = {
    1: (32, _dirs(20, 24, 2, 16, 26, 28, None)),
    2: (32, [("nlink", None, 1), ("xtra.reg.start_block", 16, 4), ("xtra.reg.file_size", 28, 4), ("xtra.reg.frag_idx", 20, 4), ("xtra.reg.frag_off", 24, 4)]),
    3: (24, [("nlink", 16, 4), ("xtra.symlink_size", 20, 4)]),
    4: (24, [("nlink", 16, 4)]), 5: (24, [("nlink", 16, 4)]),
    6: (20, [("nlink", 16, 4)]), 7: (20, [("nlink", 16, 4)]),
    8: (40, _dirs(16, 20, 4, 24, 34, 28, 32)),
    9: (56, [("nlink", 40, 4), ("xtra.reg.start_block", 16, 8), ("xtra.reg.file_size", 24, 8), ("xtra.reg.frag_idx", 44, 4), ("xtra.reg.frag_off", 48, 4)]),
    10: (24, [("nlink", 16, 4), ("xtra.symlink_size", 20, 4)]),
    11: (28, [("nlink", 16, 4)]), 12: (28, [("nlink", 16, 4)]),
    13: (24, [("nlink", 16, 4)]), 14: (24, [("nlink", 16, 4)]),
}
BASE = [("base.uid", 4, 2), ("base.guid", 6, 2), ("base.mtime", 8, 4), ("base.inode_number", 12, 4)]
SB = {"magic": (0, 4), "inodes": (4, 4), "block_size": (12, 4), "fragments": (16, 4), "compression": (20, 2), "flags": (24, 2), "no_ids": (26, 2), "s_major": (28, 2),
      "s_minor": (30, 2), "root_inode": (32, 8), "id_table_start": (48, 8), "inode_table_start": (64, 8), "directory_table_start": (72, 8),
      "fragment_table_start": (80, 8), "lookup_table_start": (88, 8)}

def inode_queries(L, kinds, check_values=True):
    """sqfs_inode_get on an object of each kind"""
    ctx = L.ctx; fn = "sqfs_inode_get"
    fs, ino, idn = L.args(fn)[:3]
    sbo = L.off("sqfs", "sb")
    def place(env):
        f = env.val(fs); i = M64(env.val(idn))
        sb = env.mem(f + sbo[0], 8, True)
        return ("stream", M64(env.mem(sb + SB["inode_table_start"][0], 8) + (i >> 16))), i & 0xffff
    def pin(k):
        ok = {}
        probes = [Env(n + 100, n % 3) for n in range(3)]
        def d(tok, rel, size):
            """the recorded kind, wherever the decoder reads it from"""
            if size > 2:
                return None
            r = ok.get((tok, rel))
            if r is None:
                r = True
                try:
                    for env in probes:
                        t, o = place(env)
                        if env.token(ATOMS[tok]) != t or env.val(rel) != o:
                            r = False; break
                except Unknown:
                    r = False
                ok[(tok, rel)] = r
            return C(k & ((1 << (8 * size)) - 1)) if r else None
        return d
    for k in kinds:
        n, fields = RECORD.get(k, (0, []))
        def envsetup(env):
            t, o = place(env)
            env.putdata(t, o, 2, k)
        def wanted(env):
            t, o = place(env)
            D = lambda off, size: env.stream(t, o + off, size)
            if k not in RECORD:
                return [("the result for an unknown kind", 1, truth(lambda x: x.ret), 1)]
            if not check_values:
                return [("the result", 4, lambda x: x.ret, 0),
                        ("the mode", 2, lambda x: L.at(x, ino, "sqfs_inode", "base.mode"), (D(2, 2) & ~S_IFMT) | S_IF[KINDS[k]])] if not D(2, 2) & S_IFMT else []
            out = [("the result", 4, lambda x: x.ret, 0)]
            for name, off, size in BASE + fields:
                f = L.off("sqfs_inode", name)
                if f is None:
                    continue
                v = D(off, size) if off is not None else size
                if f[1] < size and off is not None:
                    # a narrower member cannot hold it: the full value is expected all the same
                    ctx.violation("sqfs_inode:%s" % name, "sqfs_inode.%s has %d bytes for a recorded field of %d" % (name, f[1], size), fn, ("", 0))
                out.append((name.split(".")[-1], f[1], lambda x, name=name: L.at(x, ino, "sqfs_inode", name), v))
            out.append(("next.block", 8, lambda x: L.at(x, ino, "sqfs_inode", "next.block"), t[1]))
            out.append(("next.offset", 8, lambda x: L.at(x, ino, "sqfs_inode", "next.offset"), o + n))
            if KINDS[k] in ("chr", "blk"):
                r = D(20, 4)
                out.append(("the major number", 4, lambda x: L.at(x, ino, "sqfs_inode", "xtra.dev.major"), (r >> 8) & 0xfff))
                out.append(("the minor number", 4, lambda x: L.at(x, ino, "sqfs_inode", "xtra.dev.minor"), (r & 0xff) | ((r >> 12) & 0xfff00)))
            return out
        L.run(fn, "kind %d" % k, None, envsetup, wanted, datum=pin(k))

def truth(t, n=None):
    return lambda x: None if t(x) is None else ("truth", t(x))

def headers(L):
    """metadata and data block headers"""
    for fn, w, szw in (("sqfs_md_header", 2, 2), ("sqfs_data_header", 4, 4)):
        if not L.ctx.defined(fn):
            continue
        h, c, s = L.args(fn)[:3]
        def wanted(env):
            v = env.val(h) & ((1 << (8 * w)) - 1)
            if w == 2:
                comp, size = not v & 0x8000, (v & 0x7fff) or 0x8000
            else:
                comp, size = not v & 0x1000000, v & ~0x1000000
            return [("whether the block is compressed", 1, truth(lambda x: mem(c, 2)), int(comp)),
                    ("the size of the block", szw, lambda x: mem(s, szw), size)]
        def es(env, w=w):
            n = env.r.randrange(6)
            if n == 0:
                env.leaf[single(h).id] = 0
            elif n == 1:
                env.leaf[single(h).id] = 0x8000 if w == 2 else 0x1000000
        L.run(fn, "", None, es, wanted)
    fn = "sqfs_md_cursor_inode"
    if L.ctx.defined(fn):
        cur, i, base = L.args(fn)[:3]
        L.run(fn, "", None, lambda env: None, lambda env: [
            ("the block", 8, lambda x: L.at(x, cur, "sqfs_md_cursor", "block"), (M64(env.val(i)) >> 16) + env.val(base)),
            ("the offset", 8, lambda x: L.at(x, cur, "sqfs_md_cursor", "offset"), env.val(i) & 0xffff)])

def sbval(L, env, fs, name):
    sb = env.mem(fs + L.off("sqfs", "sb")[0], 8, True)
    return env.mem(sb + SB[name][0], SB[name][1])
def sbput(L, env, fs, name, v):
    sb = env.mem(fs + L.off("sqfs", "sb")[0], 8, True)
    env.put(sb + SB[name][0], SB[name][1], v)

def directories(L):
    fn = "sqfs_dir_open"
    lay = InodeLayout(L.ctx)
    if L.ctx.defined(fn):
        fs, ino, d, off = L.args(fn)[:4]
        def setup(e, s, a):
            return typed(lay, 1, "dir", L)(e, s, a) and s.add_le(a[3]) and s.add_le(neg(a[3]))
        def es(env):
            env.put(env.val(ino) + lay.mode[0], 2, 0o40755)
            env.leaf[single(off).id] = 0
            L.st(env, env.val(ino), "sqfs_inode", "xtra.dir.dir_size", env.r.randrange(3, 1 << 32))
        def wanted(env):
            i = env.val(ino)
            return [("the result", 4, lambda x: x.ret, 0),
                    ("cur.block", 8, lambda x: L.at(x, d, "sqfs_dir", "cur.block"), L.ld(env, i, "sqfs_inode", "xtra.dir.start_block") + sbval(L, env, env.val(fs), "directory_table_start")),
                    ("cur.offset", 8, lambda x: L.at(x, d, "sqfs_dir", "cur.offset"), L.ld(env, i, "sqfs_inode", "xtra.dir.offset")),
                    ("offset", 8, lambda x: L.at(x, d, "sqfs_dir", "offset"), 0),
                    ("header.count", 4, lambda x: L.at(x, d, "sqfs_dir", "header.count"), 0),
                    ("total", 8, lambda x: L.at(x, d, "sqfs_dir", "total"), L.ld(env, i, "sqfs_inode", "xtra.dir.dir_size") - 3)]
        L.run(fn, "", setup, es, wanted)
    fn = "sqfs_dir_next"
    if L.ctx.defined(fn):
        fs, d, ent, err = L.args(fn)[:4]
        cnt = L.off("sqfs_dir", "header.count")
        for first in (False, True):
            def setup(e, s, a):
                c = L.rd(s, a[1], "sqfs_dir", "header.count")
                if first:
                    return s.add_le(c) and s.add_le(neg(c))
                return s.add_le(sub(ONE, c))
            def es(env):
                p = env.val(d)
                L.st(env, p, "sqfs_dir", "header.count", 0 if first else env.r.randrange(1, 256))
                o = env.r.randrange(0, 60000)
                L.st(env, p, "sqfs_dir", "offset", o)
                L.st(env, p, "sqfs_dir", "total", o + env.r.randrange(200, 70000))
                c = L.ld(env, p, "sqfs_dir", "cur.offset") & 0x1fff
                L.st(env, p, "sqfs_dir", "cur.offset", c)
                t = ("stream", L.ld(env, p, "sqfs_dir", "cur.block"))
                if first:
                    env.putdata(t, c, 4, env.r.randrange(0, 256))
                env.putdata(t, c + 6 + (12 if first else 0), 2, env.r.randrange(0, 255))
            def wanted(env):
                p = env.val(d)
                blk = L.ld(env, p, "sqfs_dir", "cur.block"); c = L.ld(env, p, "sqfs_dir", "cur.offset"); o = L.ld(env, p, "sqfs_dir", "offset")
                t = ("stream", blk)
                if first:
                    count, sb, num = env.stream(t, c, 4) + 1, env.stream(t, c + 4, 4), env.stream(t, c + 8, 4)
                    n = 12
                else:
                    count, sb, num = [L.ld(env, p, "sqfs_dir", "header." + z) for z in ("count", "start_block", "inode_number")]
                    n = 0
                D = lambda off, size: env.stream(t, c + n + off, size)
                sg = lambda v: v - 65536 if v & 0x8000 else v
                size = D(6, 2) + 1
                E = lambda path: (lambda x: L.at(x, ent, "sqfs_dir_entry", path))
                X = lambda path: (lambda x: L.at(x, d, "sqfs_dir", path))
                w = [("the result", 2, lambda x: x.ret, 1), ("the error", 4, lambda x: mem(err, 4), 0),
                     ("inode", 8, E("inode"), (sb << 16) + D(0, 2)), ("inode_number", 4, E("inode_number"), num + sg(D(2, 2))),
                     ("type", 4, E("type"), D(4, 2)), ("name_size", 8, E("name_size"), size),
                     ("offset", 8, E("offset"), o), ("next_offset", 8, E("next_offset"), o + n + 8 + size),
                     ("cur.block", 8, X("cur.block"), blk), ("cur.offset", 8, X("cur.offset"), c + n + 8 + size),
                     ("the position in the directory", 8, X("offset"), o + n + 8 + size),
                     ("the number of entries left under the header", 4, X("header.count"), count - 1)]
                nm = env.mem(env.val(ent) + L.off("sqfs_dir_entry", "name")[0], 8, True)
                w.append(("the first byte of the name", 1, lambda x: mem(L.e.read(St(), addc(ent, L.off("sqfs_dir_entry", "name")[0]), 8, True), 1), D(8, 1)))
                return w
            L.run(fn, "an entry under a new header" if first else "an entry", setup, es, wanted)

def accessors(L):
    for fn, path, n in (("sqfs_dentry_inode", "inode", 8), ("sqfs_dentry_inode_num", "inode_number", 4), ("sqfs_dentry_type", "type", 4), ("sqfs_dentry_name_size", "name_size", 8),
                        ("sqfs_dentry_offset", "offset", 8), ("sqfs_dentry_next_offset", "next_offset", 8)):
        if L.ctx.defined(fn) and L.off("sqfs_dir_entry", path):
            a = L.args(fn)[0]
            L.run(fn, "", None, lambda env: None, lambda env: [("the result", n, lambda x: x.ret, L.ld(env, env.val(a), "sqfs_dir_entry", path))])
    fn = "sqfs_inode_root"
    if L.ctx.defined(fn):
        a = L.args(fn)[0]
        L.run(fn, "", None, lambda env: None, lambda env: [("the result", 8, lambda x: x.ret, sbval(L, env, env.val(a), "root_inode"))])
    fn = "sqfs_version"
    if L.ctx.defined(fn):
        a, mj, mn = L.args(fn)[:3]
        L.run(fn, "", None, lambda env: None, lambda env: [("the major version", 4, lambda x: mem(mj, 4), sbval(L, env, env.val(a), "s_major")),
                                                         ("the minor version", 4, lambda x: mem(mn, 4), sbval(L, env, env.val(a), "s_minor"))])
    fn = "sqfs_export_ok"
    if L.ctx.defined(fn):
        a = L.args(fn)[0]
        def es(env):
            if env.r.randrange(2):
                sbput(L, env, env.val(a), "lookup_table_start", (1 << 64) - 1)
        L.run(fn, "", None, es, lambda env: [("the result", 1, truth(lambda x: x.ret), int(sbval(L, env, env.val(a), "lookup_table_start") != (1 << 64) - 1))])

def tables(L):
    """identifiers, fragments and the export table"""
    T = lambda env, fs, name, idx: ("table", M64(env.val(fs) + L.off("sqfs", name)[0]), M64(idx))
    fn = "sqfs_id_get"
    if L.ctx.defined(fn):
        fs, idx, out = L.args(fn)[:3]
        L.run(fn, "", None, lambda env: None, lambda env: [("the result", 4, lambda x: x.ret, 0),
              ("the id", 4, lambda x: mem(out, 4), env.stream(T(env, fs, "id_table", env.val(idx) & 0xffff), 0, 4))])
    fn = "sqfs_export_inode"
    if L.ctx.defined(fn):
        fs, num, out = L.args(fn)[:3]
        def es(env):
            env.leaf[single(num).id] = env.r.randrange(1, 1 << 20)
            sbput(L, env, env.val(fs), "lookup_table_start", env.r.randrange(96, 1 << 30))
        L.run(fn, "", None, es, lambda env: [("the result", 4, lambda x: x.ret, 0),
              ("the inode", 8, lambda x: mem(out, 8), env.stream(T(env, fs, "export_table", env.val(num) - 1), 0, 8))])
    fn = "sqfs_frag_entry"
    if L.ctx.defined(fn):
        fs, out, idx = L.args(fn)[:3]
        def es(env):
            env.leaf[single(idx).id] = env.r.randrange(0, 1 << 24)
        L.run(fn, "", None, es, lambda env: [("the result", 4, lambda x: x.ret, 0)] + [
              ("start_block", 8, lambda x: L.at(x, out, "squashfs_fragment_entry", "start_block"), env.stream(T(env, fs, "frag_table", env.val(idx)), 0, 8)),
              ("size", 4, lambda x: L.at(x, out, "squashfs_fragment_entry", "size"), env.stream(T(env, fs, "frag_table", env.val(idx)), 8, 4))])
    fn = "sqfs_frag_block"
    lay = InodeLayout(L.ctx)
    if L.ctx.defined(fn):
        fs, ino, off, size, out = L.args(fn)[:5]
        def setup(e, s, a):
            return typed(lay, 1, "reg", L)(e, s, a)
        def es(env):
            i = env.val(ino)
            env.put(i + lay.mode[0], 2, 0o100644)
            L.st(env, i, "sqfs_inode", "xtra.reg.frag_idx", env.r.randrange(0, 1 << 20))
            L.st(env, i, "sqfs_inode", "xtra.reg.file_size", env.r.randrange(1, 1 << 40))
            sbput(L, env, env.val(fs), "block_size", 1 << env.r.randrange(12, 21))
        def wanted(env):
            i = env.val(ino); f = env.val(fs)
            t = T(env, fs, "frag_table", L.ld(env, i, "sqfs_inode", "xtra.reg.frag_idx"))
            blk = ("dblk", f + L.off("sqfs", "frag_cache")[0], env.stream(t, 0, 8), env.stream(t, 8, 4))
            return [("the result", 4, lambda x: x.ret, 0),
                    ("the offset in the fragment block", 8, lambda x: mem(off, 8), L.ld(env, i, "sqfs_inode", "xtra.reg.frag_off")),
                    ("the size of the tail", 8, lambda x: mem(size, 8), L.ld(env, i, "sqfs_inode", "xtra.reg.file_size") % sbval(L, env, f, "block_size")),
                    ("the fragment block", 8, lambda x: mem(out, 8), env.ufun("dblk", [bits(blk[1], 8), bits(blk[2], 8), bits(blk[3], 4)]))]
        L.run(fn, "", setup, es, wanted)
    fn = "sqfs_table_get"
    if L.ctx.defined(fn):
        t, fs, idx, buf = L.args(fn)[:4]
        for each in (4, 8, 16):
            eo = L.off("sqfs_table", "each")
            def setup(e, s, a):
                v = L.rd(s, a[0], "sqfs_table", "each")
                return s.add_le(addc(v, -each)) and s.add_le(sub(C(each), v))
            def es(env):
                env.put(env.val(t) + eo[0], 8, each)
                env.leaf[single(idx).id] = env.r.randrange(0, 1 << 22)
            def wanted(env):
                i = env.val(idx) * each
                blocks = L.ld(env, env.val(t), "sqfs_table", "blocks", True)
                blk = env.ufun("mdblk", [env.mem(blocks + 8 * (i // 8192), 8)])
                d = env.mem(blk + L.off("sqfs_block", "data")[0], 8, True)
                return [("the result", 4, lambda x: x.ret, 0),
                        ("the entry", each, lambda x: mem(buf, each) if each < 16 else mem(addc(buf, 8), 8), env.mem(d + i % 8192 + (8 if each == 16 else 0), min(each, 8)))]
            L.run(fn, "entries of %d bytes" % each, setup, es, wanted)

def blocks(L):
    """where metadata and data blocks are read from, and the list of a file's blocks"""
    def mk_mark(kind, n, k):
        def term(x):
            ms = [m for m in x.marks if m[0] == kind]
            return ms[0][1 + n] if len(ms) == 1 else None
        return term
    fn = "sqfs_md_block_read"
    if L.ctx.defined(fn):
        fs, pos, dsz, out = L.args(fn)[:4]
        def es(env):
            env.leaf[single(pos).id] = env.r.randrange(96, 1 << 40)
            L.st(env, env.val(fs), "sqfs", "offset", env.r.choice((0, 0, 4096, 12345)))
        def wanted(env):
            f = env.val(fs); p = env.val(pos)
            h = env.mem(L.ld(env, f, "sqfs", "fd", True) + p + L.ld(env, f, "sqfs", "offset"), 2)
            size = (h & 0x7fff) or 0x8000
            M = lambda n: mk_mark("rblk", n, 8)
            return [("the position of the block", 8, M(0), p + 2), ("whether the block is compressed", 1, truth(M(1)), int(not h & 0x8000)),
                    ("the size of the block", 4, M(2), size), ("the room for the block", 8, M(3), 8192), ("the distance to the next block", 8, lambda x: mem(dsz, 8), size + 2)]
        L.run(fn, "", None, es, wanted, opaque=("sqfs_block_read",))
    fn = "sqfs_data_block_read"
    if L.ctx.defined(fn):
        fs, pos, hdr, out = L.args(fn)[:4]
        def wanted(env):
            f = env.val(fs); p = env.val(pos); h = env.val(hdr) & 0xffffffff
            M = lambda n: mk_mark("rblk", n, 8)
            return [("the position of the block", 8, M(0), p), ("whether the block is compressed", 1, truth(M(1)), int(not h & 0x1000000)),
                    ("the size of the block", 4, M(2), h & ~0x1000000), ("the room for the block", 8, M(3), sbval(L, env, f, "block_size"))]
        L.run(fn, "", None, lambda env: None, wanted, opaque=("sqfs_block_read",))
    fn = "sqfs_block_read"
    if L.ctx.defined(fn):
        fs, pos, comp, size, outsize, out = L.args(fn)[:6]
        def setup(e, s, a):
            return s.add_le(a[2]) and s.add_le(neg(a[2]))
        def es(env):
            env.leaf[single(comp).id] = 0
            env.leaf[single(pos).id] = env.r.randrange(96, 1 << 40)
            L.st(env, env.val(fs), "sqfs", "offset", env.r.choice((0, 0, 4096, 12345)))
        def inblk(path):
            def term(x):
                b = L.e.read(state_of(x), out, 8, True)
                return L.at(x, b, "sqfs_block", path) if x.ret == ZERO else None
            return term
        def wanted(env):
            f = env.val(fs)
            return [("data", 8, inblk("data"), L.ld(env, f, "sqfs", "fd", True) + env.val(pos) + L.ld(env, f, "sqfs", "offset")),
                    ("size", 8, inblk("size"), env.val(size) & 0xffffffff)]
        L.m.nofail = True
        L.run(fn, "a block stored as it is", setup, es, wanted, opaque=())
        L.m.nofail = False
    fn = "sqfs_blocklist_count"
    def esf(fs, ino):
        def es(env):
            i = env.val(ino); f = env.val(fs)
            bs = 1 << env.r.randrange(12, 21)
            n = env.r.randrange(4)
            L.st(env, i, "sqfs_inode", "xtra.reg.file_size", (0, bs * env.r.randrange(1, 9), env.r.randrange(1, 1 << 36), env.r.randrange(1, 1 << 24))[n])
            if env.r.randrange(2):
                L.st(env, i, "sqfs_inode", "xtra.reg.frag_idx", 0xffffffff)
            else:
                L.st(env, i, "sqfs_inode", "xtra.reg.frag_idx", env.r.randrange(1 << 20))
            sbput(L, env, f, "block_size", bs)
        return es
    def count(env, f, i):
        return count_blocks(L, env, f, i)
    if L.ctx.defined(fn):
        fs, ino = L.args(fn)[:2]
        L.run(fn, "", None, esf(fs, ino), lambda env: [("the result", 8, lambda x: x.ret, count(env, env.val(fs), env.val(ino)))])
    fn = "sqfs_blocklist_init"
    if L.ctx.defined(fn):
        fs, ino, bl = L.args(fn)[:3]
        def wanted(env):
            i = env.val(ino); B = lambda p: (lambda x: L.at(x, bl, "sqfs_blocklist", p))
            return [("remain", 8, B("remain"), count(env, env.val(fs), i)), ("cur.block", 8, B("cur.block"), L.ld(env, i, "sqfs_inode", "next.block")),
                    ("cur.offset", 8, B("cur.offset"), L.ld(env, i, "sqfs_inode", "next.offset")), ("started", 1, truth(B("started")), 0), ("pos", 8, B("pos"), 0),
                    ("block", 8, B("block"), L.ld(env, i, "sqfs_inode", "xtra.reg.start_block")), ("input_size", 4, B("input_size"), 0)]
        L.run(fn, "", None, esf(fs, ino), wanted)
    fn = "sqfs_blocklist_next"
    if L.ctx.defined(fn):
        bl = L.args(fn)[0]
        def es(env):
            b = env.val(bl)
            L.st(env, b, "sqfs_blocklist", "remain", env.r.randrange(1, 1 << 20))
            L.st(env, b, "sqfs_blocklist", "started", env.r.randrange(2))
            L.st(env, b, "sqfs_blocklist", "cur.offset", env.r.randrange(8192))
            f = L.ld(env, b, "sqfs_blocklist", "fs", True)
            sbput(L, env, f, "block_size", 1 << env.r.randrange(12, 21))
        def wanted(env):
            b = env.val(bl); B = lambda p: (lambda x: L.at(x, bl, "sqfs_blocklist", p)); I = lambda p: L.ld(env, b, "sqfs_blocklist", p)
            h = env.stream(("stream", I("cur.block")), I("cur.offset"), 4)
            bs = sbval(L, env, L.ld(env, b, "sqfs_blocklist", "fs", True), "block_size")
            return [("the result", 4, lambda x: x.ret, 0), ("remain", 8, B("remain"), I("remain") - 1), ("header", 4, B("header"), h), ("input_size", 4, B("input_size"), h & ~0x1000000),
                    ("block", 8, B("block"), I("block") + I("input_size")), ("pos", 8, B("pos"), I("pos") + (bs if I("started") else 0)), ("started", 1, truth(B("started")), 1),
                    ("cur.offset", 8, B("cur.offset"), I("cur.offset") + 4)]
        L.run(fn, "", None, es, wanted)

def mdread(L):
    """records that lie in one metadata block, end at its end, or cross into the next"""
    fn = "sqfs_md_read"
    if not L.ctx.defined(fn):
        return
    fs, cur, buf, n = L.args(fn)[:4]
    for size in (2, 8, 40):
        def setup(e, s, a):
            return s.add_le(addc(a[3], -size)) and s.add_le(sub(C(size), a[3]))
        def parts(env):
            c = env.val(cur)
            b0 = L.ld(env, c, "sqfs_md_cursor", "block"); o = L.ld(env, c, "sqfs_md_cursor", "offset")
            k0 = env.ufun("mdblk", [b0]); l0 = env.ulen("mdlen", [b0])
            b1 = M64(b0 + l0)
            k1 = env.ufun("mdblk", [b1]); l1 = env.ulen("mdlen", [b1])
            return b0, o, k0, b1, k1, M64(b1 + l1)
        def es(env):
            c = env.val(cur)
            env.leaf[single(n).id] = size
            L.st(env, c, "sqfs_md_cursor", "block", env.r.randrange(96, 1 << 40))
            mode = env.r.randrange(5)
            o = (env.r.randrange(0, 8192 - size), 8192 - size, 8192 - env.r.randrange(1, size), 8192 - size // 2, 8191 - size)[mode]
            L.st(env, c, "sqfs_md_cursor", "offset", o)
            b0, o, k0, b1, k1, b2 = parts(env)
            for k in (k0, k1):
                L.st(env, k, "sqfs_block", "size", 8192)
        def wanted(env):
            b0, o, k0, b1, k1, b2 = parts(env)
            d0 = L.ld(env, k0, "sqfs_block", "data", True); d1 = L.ld(env, k1, "sqfs_block", "data", True)
            left = 8192 - o
            w = [("the result", 4, lambda x: x.ret, 0)]
            for i in (0, 1, size // 2, size - 1):
                w.append(("byte %d of %d%s" % (i, size, " that lies in the next block" if i >= left else ""), 1, lambda x, i=i: mem(addc(buf, i), 1),
                          env.mem(d0 + o + i, 1) if i < left else env.mem(d1 + i - left, 1)))
            cb, co = (b0, o + size) if size < left else (b1, size - left)
            return w + [("the block after a record %s" % ("inside a block" if size < left else "reaching the end of its block" if size == left else "crossing into the next block"), 8, lambda x: L.at(x, cur, "sqfs_md_cursor", "block"), cb),
                        ("the offset after a record %s" % ("inside a block" if size < left else "reaching the end of its block" if size == left else "crossing into the next block"), 8, lambda x: L.at(x, cur, "sqfs_md_cursor", "offset"), co)]
        L.run(fn, "%d bytes" % size, setup, es, wanted, opaque=("sqfs_md_cache",))

def typed(lay, arg, kind, L):
    def setup(e, s, a):
        m = masked(s, L.rd(s, a[arg], "sqfs_inode", "base.mode"), S_IFMT)
        return s.add_le(addc(m, -S_IF[kind])) and s.add_le(sub(C(S_IF[kind]), m))
    return setup

def fixed(e, s, v, k):
    return s.add_le(addc(v, -k)) and s.add_le(sub(C(k), v))

def index(L):
    """the index of a large directory"""
    fn = "sqfs_dir_open"
    if not L.ctx.defined(fn) or not L.ctx.defined("sqfs_dir_next"):
        return
    lay = InodeLayout(L.ctx)
    fs, ino, d, off = L.args(fn)[:4]
    ic = L.off("sqfs_inode", "xtra.dir.idx_count")
    if not ic:
        return
    for count in (1, 2):
        def setup(e, s, a):
            v = L.rd(s, a[1], "sqfs_inode", "xtra.dir.idx_count")
            return typed(lay, 1, "dir", L)(e, s, a) and fixed(e, s, v, count) and s.add_le(sub(ONE, a[3]))
        def es(env):
            i = env.val(ino)
            env.put(i + lay.mode[0], 2, 0o40755)
            env.put(i + ic[0], ic[1], count)
            L.st(env, i, "sqfs_inode", "xtra.dir.dir_size", env.r.randrange(20000, 1 << 24))
            L.st(env, i, "sqfs_inode", "xtra.dir.offset", env.r.randrange(8192))
            L.st(env, i, "sqfs_inode", "next.offset", env.r.randrange(8192))
            env.leaf[single(off).id] = o = env.r.randrange(1, 1 << 16)
            t = ("stream", L.ld(env, i, "sqfs_inode", "next.block")); c = L.ld(env, i, "sqfs_inode", "next.offset")
            env.putdata(t, c, 4, env.r.randrange(o)); n = env.r.randrange(0, 256); env.putdata(t, c + 8, 4, n)
            env.putdata(t, c + 13 + n, 4, env.r.choice((env.r.randrange(o), env.r.randrange(o, 1 << 20))))
            env.putdata(t, c + 21 + n, 4, env.r.randrange(256))
        def wanted(env):
            i = env.val(ino); o = env.val(off)
            t = ("stream", L.ld(env, i, "sqfs_inode", "next.block")); c = L.ld(env, i, "sqfs_inode", "next.offset")
            base = sbval(L, env, env.val(fs), "directory_table_start")
            blk = L.ld(env, i, "sqfs_inode", "xtra.dir.start_block") + base; at = 0
            for n in range(count):
                ix = env.stream(t, c, 4)
                if ix >= o:
                    break
                at = ix; blk = env.stream(t, c + 4, 4) + base
                c += 12 + env.stream(t, c + 8, 4) + 1
            return [("cur.block", 8, lambda x: L.at(x, d, "sqfs_dir", "cur.block"), blk), ("offset", 8, lambda x: L.at(x, d, "sqfs_dir", "offset"), at),
                    ("cur.offset", 8, lambda x: L.at(x, d, "sqfs_dir", "cur.offset"), (L.ld(env, i, "sqfs_inode", "xtra.dir.offset") + at) % 8192)]
        L.run(fn, "through %d entr%s of the index" % (count, "y" if count == 1 else "ies"), setup, es, wanted, opaque=("sqfs_md_read", "sqfs_dir_next"))

def images(L):
    """the tables of an image"""
    fn = "sqfs_init"
    if not L.ctx.defined(fn):
        return
    fs, fd, off = L.args(fn)[:3]
    def es(env):
        o = env.r.choice((0, 0, 4096, 12345))
        env.leaf[single(off).id] = o
        sb = env.val(fd) + o
        for n, v in (("s_major", 4), ("s_minor", 0), ("compression", 1), ("no_ids", env.r.randrange(1, 1 << 16)), ("fragments", env.r.randrange(1, 1 << 32)), ("inodes", env.r.randrange(1, 1 << 32)),
                     ("id_table_start", env.r.randrange(1 << 40)), ("fragment_table_start", env.r.randrange(1 << 40)), ("lookup_table_start", env.r.randrange(1 << 40))):
            env.put(sb + SB[n][0], SB[n][1], v)
        env.put(sb, 4, 0x73717368)
    def wanted(env):
        base = env.val(fd) + env.val(off)
        F = lambda p: (lambda x: L.at(x, fs, "sqfs", p) if x.ret == ZERO else None)
        return [(t + "_table", 8, F(t + "_table.blocks"), base + env.mem(base + SB[n][0], 8)) for t, n in (("id", "id_table_start"), ("frag", "fragment_table_start"), ("export", "lookup_table_start"))] + \
               [("the size of an entry of %s_table" % t, 8, F(t + "_table.each"), k) for t, k in (("id", 4), ("frag", 16), ("export", 8))] + \
               [("the superblock", 8, F("sb"), base), ("the image", 8, F("fd"), env.val(fd)), ("the offset of the image", 8, F("offset"), env.val(off))]
    L.m.nofail = True
    L.run(fn, "", None, es, wanted, opaque=("sqfs_cache_init", "sqfs_block_cache_init", "sqfs_blockidx_init"))
    L.m.nofail = False

def links(L):
    fn = "sqfs_readlink"
    if not L.ctx.defined(fn):
        return
    lay = InodeLayout(L.ctx)
    fs, ino, buf, size = L.args(fn)[:4]
    def es(env):
        i = env.val(ino)
        env.put(i + lay.mode[0], 2, 0o120777)
        n = env.r.randrange(1, 4096)
        L.st(env, i, "sqfs_inode", "xtra.symlink_size", n)
        env.put(env.val(size), 8, env.r.choice((n + 1, n + 1, n + 100, max(1, n // 2))))
    def wanted(env):
        i = env.val(ino); want = min(L.ld(env, i, "sqfs_inode", "xtra.symlink_size"), env.mem(env.val(size), 8) - 1)
        t = ("stream", L.ld(env, i, "sqfs_inode", "next.block")); c = L.ld(env, i, "sqfs_inode", "next.offset")
        ks = [k for k in (0, 1, want - 1) if 0 <= k < want]
        return [("the result", 4, lambda x: x.ret, 0), ("the end of the target", 1, lambda x: mem(addc(buf, want), 1), 0)] + [
                ("byte %s of the target" % ("0" if k == 0 else "1" if k == 1 else "last"), 1, lambda x, k=k: mem(addc(buf, k), 1), env.stream(t, c + k, 1)) for k in ks]
    L.run(fn, "", typed(lay, 1, "lnk", L), es, wanted)

def files(L):
    """the blocks a read of a small file takes its bytes from, and the block index of a large one"""
    lay = InodeLayout(L.ctx)
    fn = "sqfs_read_range"
    if L.ctx.defined(fn):
        fs, ino, start, size, buf = L.args(fn)[:5]
        RANGES = ((4096, 8292, 1, 0, 8292, 4096), (4096, 8292, 1, 4106, 4146, 4096), (4096, 8292, 1, 8200, 1000, 4096), (4096, 100, 0, 10, 20, 100),
                  (4096, 12288, 0, 4095, 2, 4096), (8192, 24576, 0, 8192, 16384, 8192), (4096, 8292, 0, 8202, 1000, 100), (4096, 4096, 0, 0, 5000, 4096), (4096, 50, 1, 49, 9, 0))
        def pins(c):
            bs, n, frag, st, cnt, bsz = c
            def setup(e, s, a):
                f = L.rd(s, a[0], "sqfs", "sb")
                ok = typed(lay, 1, "reg", L)(e, s, a) and fixed(e, s, a[2], st)
                for base, path, v in ((a[1], "xtra.reg.file_size", n), (f, None, bs)):
                    o = L.off("sqfs_inode", path) if path else SB["block_size"]
                    e.write(s, addc(base, o[0]), o[1], C(v))
                o = L.off("sqfs_inode", "xtra.reg.frag_idx")
                fr = L.rd(s, a[1], "sqfs_inode", "xtra.reg.frag_idx")
                e.write(s, a[3], 8, C(cnt))
                if frag:
                    return ok and s.add_le(addc(fr, -(1 << 24)))
                return ok and fixed(e, s, fr, 0xffffffff)
            def es(env):
                i = env.val(ino); f = env.val(fs)
                env.put(i + lay.mode[0], 2, 0o100644)
                sbput(L, env, f, "block_size", bs)
                L.st(env, i, "sqfs_inode", "xtra.reg.file_size", n)
                L.st(env, i, "sqfs_inode", "xtra.reg.frag_idx", env.r.randrange(1 << 16) if frag else 0xffffffff)
                L.st(env, i, "sqfs_inode", "xtra.reg.frag_off", env.r.randrange(bs))
                L.st(env, i, "sqfs_inode", "xtra.reg.start_block", env.r.randrange(96, 1 << 40))
                L.st(env, i, "sqfs_inode", "next.offset", env.r.randrange(8000))
                t = ("stream", L.ld(env, i, "sqfs_inode", "next.block")); o = L.ld(env, i, "sqfs_inode", "next.offset")
                for k in range(4):
                    env.putdata(t, o + 4 * k, 4, env.r.choice((0, env.r.randrange(1, bs), 0x1000000 | bs, 0x1000000, env.r.randrange(1, bs))))
                env.leaf[single(start).id] = st
                env.put(env.val(size), 8, cnt)
                for k, _, at, ln in plan(env)[1]:
                    if k is not None:
                        L.st(env, k, "sqfs_block", "size", bsz)
            return setup, es
        def plan(env):
            i = env.val(ino); f = env.val(fs)
            bs = sbval(L, env, f, "block_size"); n = L.ld(env, i, "sqfs_inode", "xtra.reg.file_size")
            nb = count_blocks(L, env, f, i)
            t = ("stream", L.ld(env, i, "sqfs_inode", "next.block")); c = L.ld(env, i, "sqfs_inode", "next.offset")
            blk = L.ld(env, i, "sqfs_inode", "xtra.reg.start_block")
            out = []
            for k in range(nb):
                h = env.stream(t, c + 4 * k, 4)
                ln = min(bs, n - k * bs)
                out.append((env.ufun("dblk", [f + L.off("sqfs", "data_cache")[0], blk, h]) if h & ~0x1000000 else None, 0, k * bs, ln))
                blk += h & ~0x1000000
            if n > nb * bs:
                tt = ("table", M64(f + L.off("sqfs", "frag_table")[0]), L.ld(env, i, "sqfs_inode", "xtra.reg.frag_idx"))
                out.append((env.ufun("dblk", [f + L.off("sqfs", "frag_cache")[0], env.stream(tt, 0, 8), env.stream(tt, 8, 4)]), L.ld(env, i, "sqfs_inode", "xtra.reg.frag_off"), nb * bs, n - nb * bs))
            return n, out
        def wanted(env):
            n, parts = plan(env)
            s = env.val(start); z = min(env.mem(env.val(size), 8), n - s)
            def byte(p):
                for k, o, at, ln in parts:
                    if at <= p < at + ln:
                        return 0 if k is None else env.mem(L.ld(env, k, "sqfs_block", "data", True) + o + p - at, 1)
            w = [("the result", 4, lambda x: x.ret, 0), ("the count", 8, lambda x: mem(size, 8), z)]
            seen = {}
            for p in sorted({s, s + z - 1} | {q for k, o, at, ln in parts for q in (at, at + ln - 1) if s <= q < s + z}):
                w.append(("the byte %s" % ("asked for first" if p == s else "asked for last" if p == s + z - 1 else "at the edge of a block"), 1, lambda x, p=p: mem(addc(buf, p - s), 1), byte(p)))
            return w
        L.e.peel = 5
        for c in RANGES:
            L.m.blocksize = c[5]
            setup, es = pins(c)
            L.run(fn, "%d bytes at %d of a file of %d%s" % (c[4], c[3], c[1], " with a fragment" if c[2] else ""), setup, es, wanted)
        L.m.blocksize = 0
        L.e.peel = 3; L.e.sums.clear()
    fn = "sqfs_blockidx_blocklist"
    if L.ctx.defined(fn) and L.off("sqfs_blockidx_entry", "md_block"):
        fs, ino, bl, start = L.args(fn)[:4]
        def es(env):
            i = env.val(ino); f = env.val(fs)
            bs = 1 << env.r.choice((12, 15, 17, 20))
            sbput(L, env, f, "block_size", bs)
            n = env.r.choice((env.r.randrange(2048 * bs, 8000 * bs), 9000 * bs - 5))
            L.st(env, i, "sqfs_inode", "xtra.reg.file_size", n)
            L.st(env, i, "sqfs_inode", "xtra.reg.frag_idx", env.r.choice((0xffffffff, 3)))
            L.st(env, i, "sqfs_inode", "base.inode_number", env.r.randrange(1, 1 << 24))
            o = env.r.randrange(56, 8192)
            L.st(env, i, "sqfs_inode", "next.offset", o)
            env.leaf[single(start).id] = env.r.choice((env.r.randrange(n), env.r.randrange(2048 * bs), n - 1))
        def wanted(env):
            i = env.val(ino); f = env.val(fs); s = env.val(start)
            bs = sbval(L, env, f, "block_size"); total = count_blocks(L, env, f, i); o = L.ld(env, i, "sqfs_inode", "next.offset")
            B = lambda p: (lambda x: L.at(x, bl, "sqfs_blocklist", p))
            b = s // bs
            if b >= total:
                return [("the result", 4, lambda x: x.ret, 0), ("the blocks left", 8, B("remain"), 0)]
            m = (o + 4 * b) // 8192
            if not m:
                return [("the result", 4, lambda x: x.ret, 0), ("the blocks left", 8, B("remain"), total), ("cur.block", 8, B("cur.block"), L.ld(env, i, "sqfs_inode", "next.block")), ("cur.offset", 8, B("cur.offset"), o)]
            tab = env.mem(env.ufun("slot", [f + L.off("sqfs", "blockidx")[0], L.ld(env, i, "sqfs_inode", "base.inode_number") + 1]), 8, True)
            ent = tab + (m - 1) * L.ctx.prog.dis["sqfs_blockidx_entry"]["size"]
            skip = m * 2048 - o // 4
            return [("the result", 4, lambda x: x.ret, 0), ("the blocks left", 8, B("remain"), total - skip), ("cur.block", 8, B("cur.block"), L.ld(env, ent, "sqfs_blockidx_entry", "md_block") + sbval(L, env, f, "inode_table_start")),
                    ("cur.offset", 8, B("cur.offset"), o % 4), ("pos", 8, B("pos"), skip * bs), ("block", 8, B("block"), L.ld(env, ent, "sqfs_blockidx_entry", "data_block"))]
        L.run(fn, "", None, es, wanted, opaque=("sqfs_cache_get", "sqfs_md_read"))
        # an index that is not there yet: built from the block list
        L.m.wrap = True; L.m.nofail = True; L.m.empty = True; L.e.peel = 5
        for o, nb in ((8184, 2048), (8190, 2048), (0, 2049), (3, 2049), (8191, 2048)):
            bs = 4096; at = nb - 1
            def setup(e, s, a):
                f = L.rd(s, a[0], "sqfs", "sb")
                e.write(s, addc(a[1], L.off("sqfs_inode", "xtra.reg.file_size")[0]), 8, C(nb * bs))
                e.write(s, addc(a[1], L.off("sqfs_inode", "next.offset")[0]), 8, C(o))
                e.write(s, addc(f, SB["block_size"][0]), 4, C(bs))
                return fixed(e, s, a[3], at * bs)
            def es(env):
                i = env.val(ino)
                L.st(env, i, "sqfs_inode", "xtra.reg.file_size", nb * bs)
                L.st(env, i, "sqfs_inode", "xtra.reg.start_block", env.r.randrange(96, 1 << 40))
                L.st(env, i, "sqfs_inode", "base.inode_number", env.r.randrange(1, 1 << 24))
                L.st(env, i, "sqfs_inode", "next.offset", o)
                t = env.r.randrange(1 << 30)
                sbput(L, env, env.val(fs), "inode_table_start", t)
                sbput(L, env, env.val(fs), "block_size", bs)
                L.st(env, i, "sqfs_inode", "next.block", t + env.r.randrange(1 << 31))
                env.leaf[single(start).id] = at * bs
                for k in range(3):
                    env.putdata(("stream", L.ld(env, i, "sqfs_inode", "next.block")), o + 4 * k, 4, env.r.choice((0, env.r.randrange(1, bs), 0x1000000 | bs, 0x1000000)))
            def wanted(env):
                i = env.val(ino); B = lambda p: (lambda x: L.at(x, bl, "sqfs_blocklist", p))
                first = (8192 - o + 3) // 4     # block sizes that start in the inode's own metadata block
                b0 = L.ld(env, i, "sqfs_inode", "next.block")
                w = [("the result", 4, lambda x: x.ret, 0), ("cur.block", 8, B("cur.block"), M64(b0 + env.ulen("mdlen", [b0]))), ("cur.offset", 8, B("cur.offset"), o % 4)]
                if first < 4:
                    w.append(("block", 8, B("block"), L.ld(env, i, "sqfs_inode", "xtra.reg.start_block") + sum(env.stream(("stream", b0), o + 4 * k, 4) & ~0x1000000 for k in range(first))))
                return w + [("the blocks left", 8, B("remain"), nb - first), ("pos", 8, B("pos"), first * bs)]
            L.run(fn, "that builds the index of a list at offset %d" % o, setup, es, wanted, opaque=("sqfs_cache_get", "sqfs_cache_add", "sqfs_md_read"))
        L.m.wrap = False; L.m.nofail = False; L.m.empty = False; L.e.peel = 3; L.e.sums.clear()

def count_blocks(L, env, f, i):
    n, bs = L.ld(env, i, "sqfs_inode", "xtra.reg.file_size"), sbval(L, env, f, "block_size")
    return n // bs + (1 if n % bs and L.ld(env, i, "sqfs_inode", "xtra.reg.frag_idx") == 0xffffffff else 0)

def guard(L, f, *a):
    """a group of queries; one whose functions or records have changed shape is left out"""
    try:
        f(L, *a)
    except (ValueError, TypeError, IndexError, KeyError, StopIteration, AttributeError) as ex:
        if os.environ.get("LSQ_STRICT"):
            raise
        L.skipped.append("%s: %s" % (f.__name__, ex))

def finish(L, text):
    ctx = L.ctx
    ctx.cov["queries"] = L.nq; ctx.cov["values_compared"] = L.j.compared; ctx.cov["values_unresolved"] = L.j.unresolved; ctx.cov["assignments"] = L.j.cases
    ctx.cov["assignments_beyond_the_rounds_analysed"] = L.j.cut; ctx.cov["groups_skipped"] = len(L.skipped)
    ctx.samples = ["%s%s: %d exits" % (f, " (%s)" % w if w else "", n) for f, w, n in L.done] + ["skipped " + s for s in L.skipped]
    return text

@rule("C12")
def c12(ctx):
    ctx.L = L = Layout(ctx, 80 if ctx.tier == "quick" else 600)
    ctx.need("sqfs_inode_get", "sqfs_md_read")
    guard(L, inode_queries, sorted(RECORD) + [0, 15, 0x0101, 0x8002])
    for f in (headers, directories, accessors, tables, blocks, mdread, index, images, links, files):
        guard(L, f)
    return finish(L, "for each decoder of recorded data the analysis derives, for every path, the returned and stored values as terms over the recorded "
                  "bytes and the arguments; each is compared, under many assignments of those bytes and arguments that satisfy the path's condition, with the value "
                  "that a table of the SquashFS 4.0 layout gives for it. The terms are valued, the code is not run. Paths on which a loop runs beyond %d rounds, and "
                  "values the analysis could not express, are not judged." % L.e.peel)
