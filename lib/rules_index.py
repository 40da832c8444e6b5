"""C31: a block list opened at an offset goes on as one walked from the beginning."""
from rules_layout import *

class Blocks(Layout):
    def __init__(self, ctx, n):
        self.ctx = ctx
        self.m = Stream()
        self.e = ctx.load(models=self.m, clients=("blocks.c",), peel=3, MAXB=96, MAXX=96, eager=False)
        self.j = Judge(ctx, self.e, n)
        self.nq = 0; self.done = []; self.skipped = []

LOW = ("sqfs_cache_get", "sqfs_cache_add", "sqfs_md_read")

def want_at(L, env, bl, k, total, bs, cursor, at, hs):
    """the list after `len(hs)` blocks read from block k on, whose recorded sizes are hs and whose first lies at `at`"""
    B = lambda p: (lambda x: L.at(x, bl, "sqfs_blocklist", p))
    n = len(hs)
    return [("the result", 4, lambda x: x.ret, 0), ("the number of blocks left", 8, B("remain"), total - k - n), ("the offset of the block in the file", 8, B("pos"), (k + n - 1) * bs),
            ("the recorded size of the block", 4, B("header"), hs[-1]), ("where the block lies", 8, B("block"), M64(at + sum(h & ~0x1000000 for h in hs[:-1]))),
            ("where the next size is read (block)", 8, B("cur.block"), cursor[0]), ("where the next size is read (offset)", 8, B("cur.offset"), cursor[1] + 4 * n)]

def recorded(L):
    """with an index that is there"""
    for n, fn in ((1, "bi_first"), (2, "bi_second")):
        fs, ino, bl, start = L.args(fn)[:4]
        def head(env, b, o, n=n):
            for k in range(n):
                env.putdata(("stream", b), o + 4 * k, 4, env.r.choice((0, env.r.randrange(1, 1 << 17), 0x1000000 | 4096, 0x1000000)))
        def first(env):
            i = env.val(ino); f = env.val(fs); s = env.val(start)
            bs = sbval(L, env, f, "block_size"); total = count_blocks(L, env, f, i); o = L.ld(env, i, "sqfs_inode", "next.offset")
            m = (o + 4 * (s // bs)) // 8192
            if not m or 4 * total < 8192:
                return total, bs, 0, (L.ld(env, i, "sqfs_inode", "next.block"), o), L.ld(env, i, "sqfs_inode", "xtra.reg.start_block")
            tab = env.mem(env.ufun("slot", [f + L.off("sqfs", "blockidx")[0], L.ld(env, i, "sqfs_inode", "base.inode_number") + 1]), 8, True)
            ent = tab + (m - 1) * L.ctx.prog.dis["sqfs_blockidx_entry"]["size"]
            return total, bs, m * 2048 - o // 4, (M64(L.ld(env, ent, "sqfs_blockidx_entry", "md_block") + sbval(L, env, f, "inode_table_start")), o % 4), L.ld(env, ent, "sqfs_blockidx_entry", "data_block")
        def es(env, n=n):
            i = env.val(ino); f = env.val(fs)
            bs = 1 << env.r.choice((12, 15, 17, 20))
            sbput(L, env, f, "block_size", bs)
            size = env.r.choice((env.r.randrange(2048 * bs, 8000 * bs), 9000 * bs - 5, env.r.randrange(3 * bs, 2047 * bs), 2048 * bs, 4096 * bs - 1))
            L.st(env, i, "sqfs_inode", "xtra.reg.file_size", size)
            L.st(env, i, "sqfs_inode", "xtra.reg.frag_idx", env.r.choice((0xffffffff, 3)))
            L.st(env, i, "sqfs_inode", "base.inode_number", env.r.randrange(1, 1 << 24))
            o = env.r.choice((env.r.randrange(56, 8180), 56, 8180, 4096))
            L.st(env, i, "sqfs_inode", "next.offset", o)
            total = count_blocks(L, env, f, i)
            if total <= n:
                return False
            k = env.r.choice((env.r.randrange(total - n), total - n - 1, 0, max(0, min(total - n - 1, (8192 - o + 3) // 4)), max(0, min(total - n - 1, (8192 - o + 3) // 4 - 1)), max(0, min(total - n - 1, (8192 * 2 - o + 3) // 4))))
            env.leaf[single(start).id] = k * bs + env.r.randrange(bs)
            _, _, k, c, at = first(env)
            head(env, *c)
        def wanted(env, n=n):
            total, bs, k, c, at = first(env)
            return want_at(L, env, bl, k, total, bs, c, at, [env.stream(("stream", c[0]), c[1] + 4 * j, 4) for j in range(n)])
        L.run(fn, "", None, es, wanted, opaque=LOW)

def built(L):
    """with an index that is not there yet"""
    fn = "sqfs_blockidx_blocklist"
    fs, ino, bl, start = L.args(fn)[:4]
    L.m.wrap = True; L.m.nofail = True; L.m.empty = True; L.e.peel = 5
    for o, nb in ((8184, 2048), (8190, 2048), (0, 2049), (3, 2049), (8191, 2048), (8180, 2049)):
        bs = 4096; at = nb - 1
        def setup(e, s, a):
            f = L.rd(s, a[0], "sqfs", "sb")
            e.write(s, addc(a[1], L.off("sqfs_inode", "xtra.reg.file_size")[0]), 8, C(nb * bs))
            e.write(s, addc(a[1], L.off("sqfs_inode", "next.offset")[0]), 8, C(o))
            e.write(s, addc(f, SB["block_size"][0]), 4, C(bs))
            return fixed(e, s, a[3], at * bs)
        def es(env):
            i = env.val(ino)
            L.st(env, i, "sqfs_inode", "xtra.reg.file_size", nb * bs)
            L.st(env, i, "sqfs_inode", "xtra.reg.start_block", env.r.randrange(96, 1 << 40))
            L.st(env, i, "sqfs_inode", "base.inode_number", env.r.randrange(1, 1 << 24))
            L.st(env, i, "sqfs_inode", "next.offset", o)
            t = env.r.randrange(1 << 30)
            sbput(L, env, env.val(fs), "inode_table_start", t)
            sbput(L, env, env.val(fs), "block_size", bs)
            L.st(env, i, "sqfs_inode", "next.block", t + env.r.randrange(1 << 31))
            env.leaf[single(start).id] = at * bs
            for k in range(4):
                env.putdata(("stream", L.ld(env, i, "sqfs_inode", "next.block")), o + 4 * k, 4, env.r.choice((0, env.r.randrange(1, bs), 0x1000000 | bs, 0x1000000)))
        def wanted(env):
            i = env.val(ino)
            first = (8192 - o + 3) // 4
            b0 = L.ld(env, i, "sqfs_inode", "next.block")
            b1 = M64(b0 + env.ulen("mdlen", [b0]))
            B = lambda p: (lambda x: L.at(x, bl, "sqfs_blocklist", p))
            calc = lambda f, *ps: (lambda x: ("calc", f) + tuple(B(p)(x) for p in ps))
            w = [("the result", 4, lambda x: x.ret, 0), ("the number of blocks left", 8, B("remain"), nb - first),
                 ("the offset of the block in the file", 8, calc(lambda p, st: p + (bs if st & 0xffff else 0), "pos", "started"), first * bs),
                 ("where the next size is read (block)", 8, B("cur.block"), b1), ("where the next size is read (offset)", 8, B("cur.offset"), o % 4)]
            if first < 5:
                w.append(("where the block lies", 8, calc(lambda p, n: M64(p + n), "block", "input_size"),
                          M64(L.ld(env, i, "sqfs_inode", "xtra.reg.start_block") + sum(env.stream(("stream", b0), o + 4 * k, 4) & ~0x1000000 for k in range(first)))))
            return w
        L.run(fn, "a list whose index is built, its sizes at offset %d" % o, setup, es, wanted, opaque=LOW)
    entries(L)
    L.m.wrap = False; L.m.nofail = False; L.m.empty = False; L.e.peel = 3; L.e.sums.clear()

def entries(L):
    """what the index built for a file records first"""
    fn = "sqfs_blockidx_add"
    if not L.ctx.defined(fn):
        L.skipped.append(fn); return
    fs, ino, out = L.args(fn)
    for o, nb in ((8184, 2048), (8190, 4), (8189, 3), (8190, 2049), (8191, 2050), (8180, 2049), (0, 2049), (3, 2050), (2, 4200)):
        bs = 4096
        def setup(e, s, a):
            f = L.rd(s, a[0], "sqfs", "sb")
            e.write(s, addc(a[1], L.off("sqfs_inode", "xtra.reg.file_size")[0]), 8, C(nb * bs))
            e.write(s, addc(a[1], L.off("sqfs_inode", "next.offset")[0]), 8, C(o))
            e.write(s, addc(f, SB["block_size"][0]), 4, C(bs))
            return [s]
        def es(env):
            i = env.val(ino)
            L.st(env, i, "sqfs_inode", "xtra.reg.file_size", nb * bs)
            L.st(env, i, "sqfs_inode", "xtra.reg.start_block", env.r.randrange(96, 1 << 40))
            L.st(env, i, "sqfs_inode", "base.inode_number", env.r.randrange(1, 1 << 24))
            L.st(env, i, "sqfs_inode", "next.offset", o)
            t = env.r.randrange(1 << 30)
            sbput(L, env, env.val(fs), "inode_table_start", t)
            sbput(L, env, env.val(fs), "block_size", bs)
            L.st(env, i, "sqfs_inode", "next.block", t + env.r.randrange(1 << 31))
            for k in range(6):
                env.putdata(("stream", L.ld(env, i, "sqfs_inode", "next.block")), o + 4 * k, 4, env.r.choice((0, env.r.randrange(1, bs), 0x1000000 | bs, 0x1000000)))
        def entry(x, p):
            q = L.e.read(state_of(x), out, 8)
            return ("mem", addc(q, L.off("sqfs_blockidx_entry", p)[0]), L.off("sqfs_blockidx_entry", p)[1])
        def wanted(env):
            i = env.val(ino)
            first = (8192 - o + 3) // 4
            b0 = L.ld(env, i, "sqfs_inode", "next.block")
            b1 = M64(b0 + env.ulen("mdlen", [b0]))
            w = [("the result", 4, lambda x: x.ret, 0), ("the block its first entry names", 4, lambda x: entry(x, "md_block"), (b1 - sbval(L, env, env.val(fs), "inode_table_start")) & 0xffffffff)]
            if first < 6:
                w.append(("the place of the data its first entry names", 8, lambda x: entry(x, "data_block"),
                          M64(L.ld(env, i, "sqfs_inode", "xtra.reg.start_block") + sum(env.stream(("stream", b0), o + 4 * k, 4) & ~0x1000000 for k in range(first)))))
            return w
        L.run(fn, "the index of a file whose sizes are at offset %d" % o, setup, es, wanted, opaque=LOW)

@rule("C31")
def c31(ctx):
    ctx.L = L = Blocks(ctx, 120 if ctx.tier == "quick" else 1200)
    ctx.need("sqfs_blockidx_blocklist", "sqfs_blocklist_next", "sqfs_md_read")
    for f in (recorded, built):
        guard(L, f)
    return finish(L, "the values a block list holds after it was opened at an offset, and after each of its next two blocks, as terms over the inode, the index entry and the recorded "
                  "sizes, compared under many files and offsets with those of a list walked from the beginning: which block, where it lies, its recorded size, how many are left, "
                  "where the next size is read; likewise for an index built on the way, around its first boundary")
