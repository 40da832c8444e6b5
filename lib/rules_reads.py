"""C27: which byte of which recorded block a read delivers."""
from rules_lookup import *
import rules_handles, rules_layout, rules_behaviour, rules_index

LIST = (7 << 20) + 8192; BASE = 96 + 40000; FRAG = 40000 + 3000001; BS = 4096

class Recorded(Directory):
    """a file whose recorded block sizes are those of a plan; loading a block delivers its content, which is unknown, or fails"""
    plan = None; phase = 0
    nofail = property(lambda self: self.phase == 0, lambda self, v: None)
    ok = property(lambda self: self.phase == 0, lambda self, v: None)
    def err(self, e, ins, k):
        return ONE
    def number(self, v):
        return v[0] if v is not None and not v[1] else None
    def x_sqfs_md_read(self, e, st, ins, args):
        fs, cur, buf, n = (st.norm(a) for a in args[:4])
        bad = self.other(e, st, ins, ONE, "list")
        b = self.number(self.get(e, st, cur, "sqfs_md_cursor", "block")); o = self.number(self.get(e, st, cur, "sqfs_md_cursor", "offset"))
        j = None if o is None or b != LIST else (o - 200) // 4
        if j is None or (o - 200) % 4 or not 0 <= j < len(self.plan.sizes) or n != C(4):
            self.log(st, "lost" if b is not None and o is not None else "unknown"); self.ret(st, ins, ONE)
            return [st]
        if split(buf)[0] is not None:
            e.write(st, buf, 4, C(self.plan.sizes[j]))
        self.put(e, st, cur, "sqfs_md_cursor", "offset", C(o + 4)); self.ret(st, ins, ZERO)
        return [st] + bad
    def x_sqfs_table_get(self, e, st, ins, args):
        bad = self.other(e, st, ins, ONE, "fragments")
        i = self.number(st.norm(args[2]))
        if i != self.plan.frag:
            self.log(st, "lost" if i is not None else "unknown"); self.ret(st, ins, ONE)
            return [st]
        f = st.norm(args[3])
        e.write(st, f, 8, C(FRAG)); e.write(st, addc(f, 8), 4, C(1777)); e.write(st, addc(f, 12), 4, ZERO); self.ret(st, ins, ZERO)
        return [st] + bad
    def x_sqfs_cache_get(self, e, st, ins, args):
        self.ret(st, ins, ZERO)
    def x_sqfs_cache_add(self, e, st, ins, args):
        self.ret(st, ins, V(mk("OP", ("draw", "slot", st.norm(args[0]), st.norm(args[1])), 4096, INF, True)))
    def x_sqfs_block_read(self, e, st, ins, args):
        bad = self.other(e, st, ins, ONE, "block")
        pos, packed, size, room = (self.number(st.norm(a)) for a in args[1:5]); out = st.norm(args[5])
        want = self.plan.where.get(pos)
        if None in (pos, packed, size, room):
            self.log(st, "unknown"); self.ret(st, ins, ONE)
            return [st]
        if want is None or size != want[1] & 0xffffff or bool(packed) != (not want[1] & RAW) or packed and room != self.plan.bs:
            self.log(st, "astray"); self.ret(st, ins, ONE)
            return [st]
        blk = V(mk("OP", ("draw", "block", C(pos)), 4096, INF, True)); data = V(mk("OP", ("draw", "data", C(pos)), 4096, INF, True))
        self.put(e, st, blk, "sqfs_block", "size", C(want[2])); self.put(e, st, blk, "sqfs_block", "data", data)
        e.write_region(st, data, C(want[2]), ("D", self.content(pos).id, ZERO))
        e.write(st, out, 8, blk); self.ret(st, ins, ZERO)
        return [st] + bad
    def content(self, pos):
        return mk("OP", ("content", C(pos)))

class Plan:
    """a file: whole blocks, what they were compressed to (none: a hole), the rest in a fragment or a block of its own"""
    def __init__(self, name, size, sizes, frag=None, fragoff=0, bs=BS):
        self.bs = bs; self.name = name; self.size = size; self.sizes = sizes; self.frag = frag; self.fragoff = fragoff
        self.where = {}; self.at = []; p = BASE
        for j, h in enumerate(sizes):
            n = h & 0xffffff
            self.at.append(p if n else None)
            if n:
                self.where[p] = (j, h, min(bs, size - j * bs))
            p += n
        if frag is not None:
            self.where[FRAG] = (None, 1777, fragoff + size % bs + 33)
    def byte(self, k):
        """the block and the byte of it that hold byte k of the file; None in a hole"""
        j = k // self.bs
        if j < len(self.sizes):
            return None if self.at[j] is None else (self.at[j], k % self.bs)
        return FRAG, self.fragoff + k % self.bs

RAW = 1 << 24
PLANS = (Plan("three blocks and a fragment", 3 * BS + 700, (1001, 4096 | RAW, 903), 5, 261), Plan("blocks only, the last one short", 2 * BS + 500, (1201, 802, 303)),
         Plan("holes", 4 * BS + 90, (0, 701, 0, 650, 0)), Plan("a fragment alone", 350, (), 0, 0), Plan("holes and a fragment", 3 * BS + 1, (0, 600, 0), 2, 4000), Plan("whole blocks", 2 * BS, (1200, 800)),
         Plan("a short block that is stored", BS + 77, (1500, 77 | RAW)), Plan("whole blocks and a fragment of nothing", 2 * BS, (1200, 800), 1),
         Plan("large blocks", 3 * (1 << 17) + 70000, (100000, 131072 | RAW, 0), 70000, 61000, 1 << 17), Plan("the largest blocks", (1 << 21) + 900000, (1 << 20 | RAW, 700000, 800000), bs=1 << 20))

class ReadLab(rules_handles.HandleLab):
    def __init__(self, ctx):
        self.ctx = ctx; self.m = Recorded(); self.m.L = self
        self.e = ctx.load(models=self.m, peel=12, MAXB=4000, MAXX=4000, eager=False, markfacts=True, inline=8)
        self.wrap(); self.nq = 0; self.skipped = []; self.done = []; self.statics = ()

LOW = ("sqfs_md_read", "sqfs_table_get", "sqfs_block_read", "sqfs_cache_get", "sqfs_cache_add")

def ranges(size, BS):
    """where ranges begin and how long they are"""
    out = []
    for s in sorted({0, 1, 255, BS - 1, BS, BS + 1, 2 * BS - 1, 2 * BS, 3 * BS - 7, 3 * BS, size - 90, size - 1, size, size + 5, 1 << 33} ):
        if s < 0:
            continue
        for n in (1, 90, BS - 255, BS, BS + 1, 2 * BS + 3, 1 << 22):
            out.append((s, n))
    return out

def reading(L, plan, start, size, phase):
    ctx = L.ctx; m = L.m; m.plan = plan; m.phase = phase
    fn = "sqfs_read_range"; f = ctx.prog.fns[fn]
    def setup(e, s, a):
        fs, ino, st, sz, buf = a[:5]
        sb = s.norm(e.read(s, addc(fs, L.off("sqfs", "sb")[0]), 8, True))
        if s.add_le(sub(C(4096), sb)) is False:
            return False
        e.write(s, addc(sb, SB["block_size"][0]), 4, C(plan.bs))
        put = lambda p, v: m.put(e, s, ino, "sqfs_inode", p, C(v))
        put("base.mode", 0o100644); put("base.inode_number", 9); put("next.block", LIST); put("next.offset", 200)
        put("xtra.reg.start_block", BASE); put("xtra.reg.file_size", plan.size); put("xtra.reg.frag_idx", 0xffffffff if plan.frag is None else plan.frag); put("xtra.reg.frag_off", plan.fragoff)
        e.write(s, sz, 8, C(size))
        return s.assume(("eq", addc(st, -start))) is not False
    n = max(0, min(size, plan.size - start))
    what = "a file of %d bytes (%s), reading %d from byte %d" % (plan.size, plan.name, size, start)
    for x in L.query(fn, setup, opaque=LOW):
        s = state_of(x)
        ev = [v[2] for v in m.entries(x)]
        def bad(key, msg):
            ctx.violation(key, "%s: %s" % (what, msg), fn, (f.file, f.line), x.trace)
        if "unknown" in ev:
            continue
        r = s.ev(("eq", s.norm(x.ret)))
        if "astray" in ev or "lost" in ev:
            bad("block", "it asks for a %s that the file does not record" % ("block" if "astray" in ev else "block size or fragment")); return
        if "fails" in ev or x.faults:
            if r is True:
                bad("error", "it succeeds although what it needs cannot be loaded"); return
            continue
        ctx.cov["ranges"] += 1
        if r is False:
            bad("fails", "it fails although nothing it needs does"); return
        if r is None:
            continue
        args = [V(p) for p in L.e.ptypes(f)]
        got = s.norm(L.e.read(s, args[3], 8))
        if not got[1] and got[0] != n:
            bad("count", "it delivers %d bytes" % got[0]); return
        if got[1]:
            continue
        for k in sorted({k for e in [0, n] + [b * plan.bs - start for b in range(0, 6)] for k in (e - 1, e, e + 1) if 0 <= k < n} | {n // 2} if n else ()):
            v = s.norm(L.e.read(s, addc(args[4], k), 1)); ctx.cov["bytes"] += 1
            w = plan.byte(start + k)
            if w is None:
                if v != ZERO and s.ev(("eq", v)) is False or source(v) is not None or stale(v, args[4]):
                    bad("hole", "byte %d of the result lies in a hole and is not zero" % k); return
                continue
            src = source(v)
            if v == ZERO or src is not None and src != (m.content(w[0]).id, w[1]) or stale(v, args[4]):
                bad("byte", "byte %d of the result is %s, not byte %d of block %s" % (k, "zero" if v == ZERO else "another byte" if src else "left as it was", w[1], "(fragment)" if w[0] == FRAG else plan.where[w[0]][0])); return

def source(v):
    """the content and the byte of it a term is"""
    while len(v[1]) == 1:
        a = ATOMS[v[1][0][0]]
        if a.kind == "D":
            return (a.args[0], a.args[1][0]) if not a.args[1][1] and ATOMS[a.args[0]].kind == "OP" and ATOMS[a.args[0]].args[0] == "content" else None
        if a.kind != "OP" or a.args[0] not in ("sx", "zx"):
            return None
        v = a.args[2]
    return None

def stale(v, buf):
    """what the caller's buffer held before"""
    while len(v[1]) == 1:
        a = ATOMS[v[1][0][0]]
        if a.kind == "M":
            return split(a.args[0])[0] == split(buf)[0]
        if a.kind != "OP" or a.args[0] not in ("sx", "zx"):
            return False
        v = a.args[2]
    return False

@rule("C27")
def c27(ctx):
    L = ReadLab(ctx)
    ctx.need("sqfs_read_range", "squash_read")
    ctx.cov["ranges"] = ctx.cov["bytes"] = 0
    for plan in PLANS:
        for start, size in ranges(plan.size, plan.bs):
            guard(L, lambda L: reading(L, plan, start, size, 0))
        for start, size in ((0, 1 << 22), (plan.bs + 9, plan.bs)):
            guard(L, lambda L: reading(L, plan, start, size, 1))
    # the steps below and above: lists, fragments, blocks as they are stored, the index; the position of a handle
    nq = L.nq; skipped = list(L.skipped)
    for lab, groups in ((lambda: Layout(ctx, 40), (rules_layout.headers, rules_layout.tables, rules_layout.blocks, rules_layout.mdread)), (lambda: Layout(ctx, 40, rules_behaviour.World), (rules_behaviour.reads,)),
                        (lambda: rules_index.Blocks(ctx, 40), (rules_index.recorded, rules_index.built))):
        M = lab()
        for g in groups:
            guard(M, g)
        nq += M.nq; skipped += M.skipped
    L.nq = nq; L.skipped = skipped
    ctx.cov["queries"] = L.nq; ctx.cov["groups_skipped"] = len(L.skipped)
    ctx.samples = ["%s: %d bytes, recorded sizes %s" % (p.name, p.size, list(p.sizes)) for p in PLANS] + ["skipped " + s for s in L.skipped]
    return ("every path of a ranged read is analysed, callees in its own state, over files of each shape (whole and short last blocks, holes, stored blocks, fragments at an offset), for ranges that "
            "begin and end inside, at and beyond every boundary; a block's content stays unknown: each delivered byte is the term that says which byte of which recorded block it is, and is compared with the "
            "one the layout prescribes; a block, size or fragment asked for that the file does not record, another count, and a success after a failed load are violations. The steps below (headers, fragment and block tables, block lists, blocks stored as they are, the index) "
            "and the handle's position above are analysed as in C12, C31 and C20.")
