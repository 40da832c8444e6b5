"""C10, C12, C14, C17: what the image's bytes are used for."""
from rules import *

IMG = ("sqfs.fd", "sqfs.sb", "sqfs_block.data")

def image_base(i):
    """is this address base the caller's image, or block data that may point into it?"""
    a = ATOMS[i]
    return a.kind == "M" and a.tag in IMG

@rule("C10")
def c10(ctx):
    st = {"w": 0, "f": 0}
    def onwrite(e, s, addr, ln, ins, what):
        b, off = split(addr)
        a = ATOMS[b]
        st["w"] += 1
        if a.inp and a.kind in ("P", "M"):
            e.emit(s, "acc", (V(a),), ins, ("write", what))
    def owned(s, a):
        """block data of a block that says it owns it"""
        if a.tag != "sqfs_block.data" or not dnf:
            return False
        blk = addc(a.args[0], -data[0])
        v = ctx.e.read(s, addc(blk, dnf[0]), dnf[1], False, "sqfs_block.data_need_freeing")
        return s.ev(("ne", v)) is True
    def onfree(e, s, p, ins, loc, chain):
        b, off = split(p)
        a = ATOMS[b]
        st["f"] += 1
        if not image_base(b) or owned(s, a):
            return
        n = e.cur.name
        if n in roots or not any(n in cs for cs in ctx.prog.calls.values()):
            ctx.violation("free:%s" % n, "%s frees %s" % (n, "block data without the block saying that it owns it" if a.tag == "sqfs_block.data" else "the image"),
                          n, loc or e.loc(ins), s.trace, chain)
    e = ctx.load(onwrite=onwrite, onfree=onfree)
    data = ctx.member("sqfs_block", "data"); dnf = ctx.member("sqfs_block", "data_need_freeing")
    fd = ctx.member("sqfs", "fd")
    if not fd or not data:
        raise Broken("the image pointer or the block's data pointer is gone")
    roots = ctx.roots()
    nblk = 0
    for n in roots:
        s = ctx.summary(n)
        images = set()
        for x in s.exits:
            for b, o in x.mem.items():
                if ctx.typeof(ATOMS[b]) == "sqfs":
                    v = e_cell(o, C(fd[0]))
                    q = single(v) if v is not None else None
                    if q is not None and q.kind == "P":
                        images.add(q.id)
        for evs in s.events.values():
            for ev in evs:
                if ev.kind != "acc":
                    continue
                b, off = split(ev.lins[0])
                if b is None or not (image_base(b) or b in images):
                    continue
                fn = ctx_fn(ctx, ev.loc) or n
                ctx.violation("write:%s" % fn, "%s writes into %s" % (fn, "block data that may be the image" if ATOMS[b].tag == "sqfs_block.data" else "the image"),
                              fn, ev.loc, None, ((n, 0),) + tuple(ev.chain))
        for x in s.exits:
            for L, loc in x.freed.items():
                b, off = split(L)
                if b in images:
                    ctx.violation("free:%s" % n, "%s frees the image" % n, n, loc, x.trace)
            # blocks built here: data inside the image is never marked as the block's own
            for b, o in x.mem.items():
                v = e_cell(o, C(data[0]))
                q = split(v)[0] if v is not None else None
                if q is None or not dnf or ATOMS[b].kind != "H":
                    continue
                d = e_cell(o, C(dnf[0]))
                if d is None:
                    continue
                if ATOMS[q].kind == "M" and ATOMS[q].tag in IMG[:2]:
                    nblk += 1
                    lo, hi = rng(x, d)
                    if lo > 0 or hi < 0 or d in x.neq:
                        ctx.violation("own:%s" % n, "%s builds a block that claims to own the image's bytes" % n, n, x.loc, x.trace)
    ctx.cov["writes_analysed"] = st["w"]; ctx.cov["frees_analysed"] = st["f"]; ctx.cov["blocks_built_on_image"] = nblk
    return ("Provenance analysis: the base of every write and every free on every abstract path, followed to the public callers, must not be the image pointer, "
            "the superblock pointer, the caller's image argument, or the data pointer of a block; block data is freed only where the path "
            "established that the block owns it, and a block pointing into the image never claims to.")

S_IFMT = 0o170000
S_IF = {"reg": 0o100000, "dir": 0o040000, "lnk": 0o120000, "chr": 0o020000, "blk": 0o060000, "fifo": 0o010000, "sock": 0o140000}
# recorded kinds of the SquashFS 4.0 layout: basic and extended forms
KINDS = {1: "dir", 2: "reg", 3: "lnk", 4: "blk", 5: "chr", 6: "fifo", 7: "sock",
         8: "dir", 9: "reg", 10: "lnk", 11: "blk", 12: "chr", 13: "fifo", 14: "sock"}
KINDNAME = {"reg": "regular file", "dir": "directory", "lnk": "symbolic link", "chr": "character device", "blk": "block device", "fifo": "FIFO", "sock": "socket"}

def masked(st, v, k):
    """v & k, for a 16-bit v, as the engine writes it"""
    v = st.norm(Engine.zx(None, st, v, 16))
    if not v[1]:
        return C(v[0] & k)
    if st.lb(v) < 0:
        return None
    hi = st.ub(v)
    if hi != INF:
        k &= (1 << int(hi).bit_length()) - 1
        if k == (1 << int(hi).bit_length()) - 1:
            return v
    if k == 0:
        return ZERO
    a = single(v)
    if a is not None and a.kind == "OP" and a.args[0] == "and" and not isinstance(a.args[2], tuple):
        v = a.args[1]; k &= a.args[2]
    return V(mk("OP", ("and", v, k), 0, k))

class InodeLayout:
    """where the type-specific part of an object is, and which type each piece belongs to"""
    def __init__(self, ctx):
        x = ctx.member("sqfs_inode", "xtra"); b = ctx.member("sqfs_inode", "base")
        m = ctx.member("squashfs_base_inode", "mode"); t = ctx.member("squashfs_base_inode", "inode_type")
        if not x or not b or not m or not t:
            raise Broken("objects have no type-specific part, no mode or no recorded kind any more")
        self.xo, self.xs = x
        self.mode = b[0] + m[0], m[1]; self.type = b[0] + t[0], t[1]
        u = ctx.prog.dis.get(ctx.member_type("sqfs_inode.xtra"))
        if not u:
            raise Broken("the type-specific part of an object is not a union any more")
        self.parts = {}          # tag prefix -> (kinds, member)
        for n, off, size, ty in u["members"]:
            kinds = {"reg": ("reg",), "dir": ("dir",), "dev": ("chr", "blk")}.get(n) or (("lnk",) if "link" in n else None)
            if kinds is None:
                raise Broken("the type-specific part has a member %s this rule does not know" % n)
            self.parts[n] = (kinds, off, size, ty)
    def of(self, addr, tag):
        """(address of the object, member, kinds) of an access, or None"""
        for n, (kinds, off, size, ty) in self.parts.items():
            if ty.startswith("#") and tag.startswith(ty + "."):
                return n, kinds
        if tag == "sqfs_inode.xtra":
            for n, (kinds, off, size, ty) in self.parts.items():
                if not ty.startswith("#"):
                    return n, kinds
        return None

C14_INTERNAL = {"sqfs_blocklist_init", "sqfs_blocklist_count", "sqfs_blocklist_next", "sqfs_blockidx_blocklist", "sqfs_inode_get"}
C14_OPS = (("sqfs_read_range", "reg", 1), ("sqfs_frag_block", "reg", 1), ("sqfs_readlink", "lnk", 1), ("squash_readlink_inode", "lnk", 1), ("sqfs_dir_open", "dir", 1))

@rule("C14")
def c14(ctx):
    st = {"n": 0, "ok": 0}
    def tests(e, s, obj, kinds):
        m = masked(s, e.read(s, addc(obj, lay.mode[0]), lay.mode[1], False, "squashfs_base_inode.mode"), S_IFMT)
        t = e.read(s, addc(obj, lay.type[0]), lay.type[1], False, "squashfs_base_inode.inode_type")
        return m, t
    def proved(s, m, t, kinds):
        return direct(s, m, t, kinds) or any(each(s, g, m, t, kinds) for g in s.alts)
    def each(s, g, m, t, kinds):
        for b, q, n in g:
            s2 = s.copy(); s2.alts = ()
            ok = True
            for i, (lo, hi) in b:
                if lo != -INF:
                    ok = ok and s2.add_le(sub(C(int(lo)), V(ATOMS[i])))
                if hi != INF:
                    ok = ok and s2.add_le(sub(V(ATOMS[i]), C(int(hi))))
            ok = ok and all(s2.add_le(f) for f in q) and all(s2.add_ne(f) for f in n)
            if ok and not direct(s2, m, t, kinds):
                return False
        return True
    def direct(s, m, t, kinds):
        if m is not None and all(s.ev(("eq", addc(m, -w))) is False for k, w in S_IF.items() if k not in kinds):
            return True     # the mode can be none of the other types
        if m is not None and any(s.ev(("eq", addc(m, -S_IF[k]))) is True for k in kinds):
            return True
        return all(s.ev(("eq", addc(t, -n))) is False for n, k in KINDS.items() if k not in kinds)
    def watch(e, s, ins, addr, size, rw, tag, val=None):
        if rw != "r" or ins["op"] != "load" or not tag:
            return
        r = lay.of(addr, tag)
        if r is None:
            return
        n, kinds = r
        off, ty = lay.parts[n][1], lay.parts[n][3]
        f = 0
        if ty.startswith("#"):
            f = ctx.member(ty, tag.rsplit(".", 1)[1])[0]
        obj = addc(addr, -(lay.xo + off + f))
        st["n"] += 1
        m, t = tests(e, s, obj, kinds)
        if proved(s, m, t, kinds):
            st["ok"] += 1
            return
        e.emit(s, "xtra", (m if m is not None else ZERO, t), ins, (n, kinds, e.cur.name))
    def lift(e, s, ins, ev, sb, chain):
        m, t = [s.norm(sb.lin(x)) for x in ev.lins]
        if not proved(s, m, t, ev.extra[1]):
            e.emit(s, "xtra", (m, t), ins, ev.extra, loc=ev.loc, chain=chain)
    mods = Models14()
    mods.lift["xtra"] = lift
    e = ctx.load(watch=watch, models=mods)
    lay = InodeLayout(ctx)
    roots = [n for n in ctx.roots() if n not in C14_INTERNAL]
    for n in roots:
        s = ctx.summary(n)
        for evs in s.events.values():
            for ev in evs:
                if ev.kind != "xtra" or ev.extra[2] == "sqfs_inode_get":
                    continue
                mem, kinds, fn = ev.extra
                ctx.violation("%s:%s" % (fn, mem), "%s uses data of a %s without knowing that the object is one" % (fn, KINDNAME[kinds[0]]), fn, ev.loc, None, ((n, 0),) + tuple(ev.chain))
    nq = 0
    for fn, kind, arg in C14_OPS:
        if not ctx.defined(fn) or len(ctx.prog.fns[fn].params) <= arg:
            continue
        def setup(e, s, args):
            m = masked(s, e.read(s, addc(args[arg], lay.mode[0]), lay.mode[1], False, "squashfs_base_inode.mode"), S_IFMT)
            return s.add_ne(addc(m, -S_IF[kind]))
        q = e.query(fn, setup)
        nq += 1
        for x in (q.exits if q else ()):
            if retclass(x, "nonzero") is False:
                ctx.violation("%s:wrongtype" % fn, "%s succeeds on an object that is no %s" % (fn, KINDNAME[kind]), fn, x.loc, x.trace)
            elif retclass(x, "neg") is False and failkind(fn) == "neg":
                ctx.violation("%s:wrongtype" % fn, "%s succeeds on an object that is no %s" % (fn, KINDNAME[kind]), fn, x.loc, x.trace)
    ctx.cov["reads_of_type_specific_data"] = st["n"]; ctx.cov["proved_at_the_read"] = st["ok"]; ctx.cov["wrong_type_queries"] = nq
    return ("Typestate of objects: every read of the type-specific part of an object, on every abstract path, must be dominated by the knowledge "
            "that the object's mode (or recorded kind) is of the type the piece belongs to, in the function or in all its callers up to the public ones; "
            "and each type-specific operation, assuming an object of another type, must fail on every path.")

from models import Models
class Models14(Models):
    pass
