"""One rule per property: what is specified, where, and what counts as a violation."""
from check import *
from engine import sub_atoms
from frontend import Broken

RULES = {}
def rule(pid):
    def f(fn):
        RULES[pid] = fn
        return fn
    return f

def gvar(n):
    return mk("G", (n,), 4096, INF, True)

CLIENTS = ("lifecycle.c",)

def mem_roots(ctx):
    """summaries of every function of the library and of every client program, callees first"""
    names = []
    for c in ctx.prog.sccs:
        for n in c:
            names.append(n)
            ctx.summary(n)
    return names

def memsafety(ctx, kinds, what, keep=lambda f: True):
    e = ctx.load(clients=CLIENTS, MAXX=16 if ctx.tier == "quick" else 48)
    names = mem_roots(ctx)
    n = 0
    for f in e.findings.values():
        if f.kind in kinds and keep(f):
            ctx.finding(f)
    ctx.cov["exit_paths"] = sum(len(s.exits) for s in e.sums.values())
    return names

def arg_fields(x, n):
    """what an exit knows of the members of its record arguments as they were at entry: {(argument, offset): (low, high)}"""
    r = {}
    for i, b in x.bnd.items():
        a = ATOMS[i]
        if a.kind == "M":
            h, off = split(a.args[0])
            if h is not None and ATOMS[h].kind == "P" and ATOMS[h].args[0] == n and not off[1]:
                r[(ATOMS[h].args[1], off[0])] = b
    return r

def freed_fields(x, n):
    r = set()
    for k in x.freed:
        a = single(k) if is_lin(k) else None
        if a is not None and a.kind == "M":
            h, off = split(a.args[0])
            if h is not None and ATOMS[h].kind == "P" and ATOMS[h].args[0] == n and not off[1]:
                r.add((ATOMS[h].args[1], off[0]))
    return r

def failed(ctx, n, x):
    """did this exit report failure?"""
    d = ctx.prog.fns[n].dity[0] if ctx.prog.fns[n].dity else "void"
    if x.ret is None or x.ret[1]:
        return False
    if d.startswith("*"):
        return x.ret[0] == 0
    return x.ret[0] == -1 or d == "sqfs_err" and x.ret[0] != 0

def record_arg(ctx, n, i):
    d = ctx.prog.fns[n].dity
    t = d[i + 1].replace("const ", "") if i + 1 < len(d) else ""
    return t[1:] if t.startswith("*") and t[1:] in ctx.prog.dis else None

def destructors(ctx):
    """A function that releases a member of its argument does so on every successful path, or finds it null.  A path that
    skips the release because of another member's value is a leak when some other function of the interface brings that
    member to such a value and leaves the owned block in place."""
    cand = {}
    for (n, k), s in sorted(ctx.e.sums.items(), key=lambda q: q[0][0]):
        if not k and n in ctx.prog.fns and not n.startswith("vf_"):
            for x in s.exits:
                for arg, off in freed_fields(x, n):
                    r = record_arg(ctx, n, arg)
                    if r:
                        cand.setdefault(n, {}).setdefault((arg, off), r)
    first = ctx.e, ctx.prog, ctx.summarised; ctx.load(MAXX=64)
    nd = 0
    for n, fs in sorted(cand.items()):
        s = ctx.summary(n)
        for (arg, off), rec in sorted(fs.items()):
            nd += 1
            rel = [x for x in s.exits if (arg, off) in freed_fields(x, n)]
            for x in s.exits:
                if failed(ctx, n, x) or x.lossy or (arg, off) in freed_fields(x, n):
                    continue
                kn = arg_fields(x, n)
                if kn.get((arg, off), (1, 1))[1] == 0:
                    continue
                # what sets this path apart from those that release
                guard = {k[1]: b for k, b in kn.items() if k[0] == arg and k[1] != off and
                         all((lambda q: q is not None and (q[1] < b[0] or q[0] > b[1]))(arg_fields(y, n).get(k)) for y in rel)}
                if len(guard) != 1:
                    continue
                (goff, gb), = guard.items()
                how = reaches(ctx, rec, off, goff, gb, n)
                if how:
                    f = ctx.prog.di_member(rec, off); g = ctx.prog.di_member(rec, goff)
                    ctx.violation("destructor:%s:%s" % (n, f), "%s leaves %s.%s allocated when %s is %s, which %s brings about" %
                                  (n, rec, f, g, gb[0] if gb[0] == gb[1] else "%s..%s" % tuple("" if abs(v) > 1 << 31 else v for v in gb), how), n, x.loc, x.trace)
                    break
    ctx.cov["released_members"] = nd
    ctx.e, ctx.prog, ctx.summarised = first

def reaches(ctx, rec, off, goff, gb, but):
    for n in ctx.roots():
        f = ctx.prog.fns[n]
        for i in range(len(f.dity) - 1):
            if n == but or record_arg(ctx, n, i) != rec:
                continue
            for x in ctx.summary(n).exits:
                if failed(ctx, n, x) or (i, off) in freed_fields(x, n) or arg_fields(x, n).get((i, off), (1, 1))[1] == 0:
                    continue
                for b, o in x.mem.items():
                    if ATOMS[b].kind != "P" or ATOMS[b].args != (n, i) or o.dflt[0] != "E":
                        continue
                    if V(ATOMS[b]) in x.freed or C(off) in o.cells or o.ovl:
                        continue
                    c = o.cells.get(C(goff))
                    if c is None:
                        continue
                    a = single(c[1])
                    if not c[1][1] and gb[0] <= c[1][0] <= gb[1]:
                        return n
                    if a is not None and a.kind == "P":
                        lo, hi = x.bnd.get(a.id, (a.lo, a.hi))
                        if lo <= gb[1] and hi >= gb[0]:
                            return n
    return None

@rule("C05")
def c05(ctx):
    memsafety(ctx, ("leak",), "")
    destructors(ctx)
    ctx.cov["allocation_sites"] = sum(1 for f in ctx.prog.fns.values() if not f.decl for B in f.blocks for i in B
                                      if i["op"] == "call" and i["callee"][0] == "f" and i["callee"][1] in ("malloc", "calloc", "realloc", "strdup"))
    return ("Ownership analysis: every function and every open/use/close client program is interpreted abstractly over all its paths, "
            "with each allocation succeeding or failing; at each return a block that is neither freed nor reachable from the result, "
            "the arguments, or static memory is a leak.")

@rule("C06")
def c06(ctx):
    memsafety(ctx, ("uaf", "dfree", "badfree", "uninit", "undecided", "nullc"), "")
    return ("Typestate of heap blocks over all abstract paths: a read, write or free of a freed block, a free of memory not "
            "obtained from the allocator, a free through an uninitialised pointer, a decision made on an uninitialised value, "
            "a write through what is surely a null pointer.")

@rule("C07")
def c07(ctx):
    memsafety(ctx, ("null", "badclose"), "", keep=lambda f: f.faults and all(x & {"oom", "fd", "io"} for x in f.faults))
    ctx.cov["fault_branches"] = sum(1 for s in ctx.e.sums.values() for x in s.exits if x.faults & {"oom", "fd", "io"})
    return ("Each allocation, duplication and stream or descriptor creation is followed both ways; on the failing branch a "
            "dereference of the null result, or use of the negative descriptor, is a violation.")

# calls that fill a buffer of the caller's: its position, and the position of the stated size (negative: the size is passed by address)
CALLERBUF = {"squash_read": (1, 2), "squash_readlink": (2, 3), "squash_readlink_inode": (2, 3), "sqfs_readlink": (2, -3), "sqfs_read_range": (4, -3),
             "sqfs_md_read": (2, 3)}

def callerbuf(ctx):
    """writes into the caller's buffer against the size the caller stated"""
    e = ctx.e; nw = 0
    for n, (bi, si) in sorted(CALLERBUF.items()):
        f = ctx.prog.fns.get(n)
        if f is None or f.decl or len(f.dity) <= max(bi, abs(si)) + 1:
            continue
        s = ctx.summary(n)
        size = {V(a) for a in ATOMS[1:] if a.kind == "P" and a.args == (n, si)} if si > 0 else \
               {V(a) for a in ATOMS[1:] if a.kind == "M" and single(a.args[0]) is not None and single(a.args[0]).kind == "P"
                and single(a.args[0]).args == (n, -si)}
        for evs in s.events.values():
            for ev in evs:
                if ev.kind != "write":
                    continue
                b, off = split(ev.lins[0])
                if b is None or ATOMS[b].kind != "P" or ATOMS[b].args != (n, bi):
                    continue
                nw += 1
                over = [sub(h, z) for h in ev.lins[1:] for z in size]
                if any(not d[1] and d[0] <= 0 for d in over) or not ev.extra[2]:
                    continue
                k = [d[0] for d in over if not d[1] and 0 < d[0] < 1 << 31]
                # no relation to the size at all: only if every bound is one recorded quantity
                if not k and not (ev.lins[1:] and all(len(h[1]) == 1 and h[1][0][1] == 1 and ATOMS[h[1][0][0]].kind == "M" and V(ATOMS[h[1][0][0]]) not in size
                                                      for h in ev.lins[1:])):
                    continue
                what = "%d byte%s past the size the caller stated" % (min(k), "s"[:min(k) > 1]) if k else "without regard to the size the caller stated"
                ctx.violation("callerbuf:%s:%s" % (n, ctx_fn(ctx, ev.loc) or n), "%s can write the caller's buffer %s" % (n, what), ctx_fn(ctx, ev.loc) or n, ev.loc, None, ((n, 0),) + tuple(ev.chain))
    ctx.cov["caller_buffer_writes"] = nw

@rule("C15")
def c15(ctx):
    n = rules_walk.long_names(ctx)
    k = rules_handles.many_entries(ctx) + rules_handles.many_scanned(ctx)
    memsafety(ctx, ("oob", "constwrite"), "")
    ctx.cov["write_obligations_with_long_names"] = n; ctx.cov["write_obligations_with_many_entries"] = k
    callerbuf(ctx)
    ctx.cov["write_obligations"] = ctx.e.stats.get("bounds", 0)
    return ("Value-range and symbolic bounds analysis of every write (stores, copies, string functions): the end of the write is "
            "compared with the capacity of the buffer it lands in, over symbolic lengths from the image and the arguments. In addition a deep traversal, a long "
            "directory stream and a long scan, all names of the greatest length, are followed in one piece, where every size is a number.")

# ------------------------------------------------------------------------------------------------ locks
SAMPLE_SKIP = ("enclose_io_fs__extract",)

@rule("C01")
def c01(ctx):
    e = ctx.load(sample=True)
    roots = ctx.roots() + [n for n, f in sorted(ctx.prog.fns.items()) if not f.decl and f.file.find("/sample/") >= 0]
    edges = {}; nlock = 0; nexit = 0; ncb = 0
    for n in roots:
        s = ctx.summary(n)
        for x in s.exits:
            nexit += 1
            if x.locks:
                ctx.violation("held:%s:%s" % (n, ctx.lockname(x.locks[0])), "%s can return with lock %s still held" % (n, ctx.lockname(x.locks[0])), n, x.loc, x.trace)
            if x.rel:
                ctx.violation("released:%s:%s" % (n, ctx.lockname(x.rel[0])), "%s can release lock %s without holding it" % (n, ctx.lockname(x.rel[0])), n, x.loc, x.trace)
        for evs in s.events.values():
            for ev in evs:
                if ev.kind == "lock":
                    nlock += 1
                    for h in ev.held:
                        a, b = ctx.lockname(h), ctx.lockname(ev.lins[0])
                        edges.setdefault(a, {}).setdefault(b, (n, ev))
                elif ev.kind == "callback":
                    ncb += 1
                    if ev.held:
                        ctx.violation("callback:%s" % ctx.lockname(ev.held[0]), "the caller's function is called while lock %s is held" % ctx.lockname(ev.held[0]),
                                      n, ev.loc, None, ev.chain)
    for f in e.findings.values():
        if f.kind == "relock":
            ctx.finding(f)
    # cycles
    for a in sorted(edges):
        seen = {}; st = [(b, (a, b)) for b in edges[a]]
        while st:
            c, path = st.pop()
            if c == a:
                fn, ev = edges[path[-2]][c]
                ctx.violation("order:" + "->".join(sorted(set(path))), "locks are taken in conflicting orders: " + " -> ".join(path), fn, ev.loc, None, ev.chain)
                break
            if c in seen:
                continue
            seen[c] = 1
            st.extend((d, path + (d,)) for d in edges.get(c, ()))
    ctx.cov["exit_paths"] = nexit; ctx.cov["lock_acquisitions"] = nlock; ctx.cov["callback_sites"] = ncb
    ctx.cov["lock_order_edges"] = sum(len(v) for v in edges.values())
    ctx.samples = ["%s -> %s" % (a, b) for a in sorted(edges) for b in sorted(edges[a])]
    return ("Lockset analysis over all abstract paths of every public function and every sample wrapper: at each return the set of locks taken "
            "and not released, or released and not taken, must be empty; no lock is taken twice; no caller-supplied function runs under a lock; "
            "the relation 'taken while holding' has no cycle.")

GUARD_EXEMPT = {"squash_start", "squash_halt", "squash_extract_clear_cache"}

def mutable_globals(ctx):
    """library variables that some function may write: name -> first writer"""
    out = {}
    for n, g in ctx.prog.globals.items():
        if g["decl"] or g.get("const") or "mutex" in (g.get("ty") or "").lower() or not g.get("file", "").find("/src/") >= 0:
            continue
        out[n] = g
    # a variable that is only ever loaded from is constant in fact
    wr = set()
    for f in ctx.prog.fns.values():
        if f.decl:
            continue
        addr = {}
        for B in f.blocks:
            for i in B:
                if i["op"] == "load":
                    continue
                for k, o in enumerate(i.get("a", []) + i.get("p", []) if i["op"] != "getelementptr" else []):
                    for g in globals_in(f, o):
                        wr.add(g)
    return {n: g for n, g in out.items() if n in wr}

def globals_in(f, o):
    """globals an operand may be (the address of a part of)"""
    out = set(); st = [o]; seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, (list, tuple)):
            continue
        if x and x[0] == "g":
            out.add(x[1])
        elif x and x[0] == "v":
            if x[1] in seen:
                continue
            seen.add(x[1])
            i = f.ins.get(x[1])
            if i is not None and i["op"] in ("getelementptr", "phi", "select", "bitcast"):
                st.extend(i.get("p", [])); st.extend(i.get("a", []))
                st.extend(v for _, v in i.get("in", []))
                st.extend(i.get("idx", []))
        else:
            st.extend(y for y in x if isinstance(y, (list, tuple)))
    return out

@rule("C02")
def c02(ctx):
    st = {}
    def watch(e, s, ins, addr, size, rw, tag, val=None):
        b, off = split(addr)
        if b is None:
            return
        a = ATOMS[b]
        vs = st["vars"]
        if a.kind == "G" and a.args[0] in vs:
            e.emit(s, "acc", (addr,), ins, (a.args[0], rw))
        else:
            g = via(a)
            if g in vs and pointee_guarded(vs[g]):
                e.emit(s, "acc", (addr,), ins, (g + " storage", rw))
            elif rw == "w" and tag and tag.startswith("SquashExtractEntry.") and a.kind != "H":
                e.emit(s, "acc", (addr,), ins, ("record of an extracted file", rw))
    def via(a):
        # memory whose address was read straight from a variable
        if a.kind == "M":
            bb, _ = split(a.args[0])
            if bb is not None and ATOMS[bb].kind == "G":
                return ATOMS[bb].args[0]
        return None
    def pointee_guarded(g):
        return "**" in (g.get("ty") or "") or (g.get("ty") or "") in ctx.prog.dis
    e = ctx.load(watch=watch)
    st["vars"] = mutable_globals(ctx)
    accs = {}
    for n in ctx.roots():
        s = ctx.summary(n)
        if n in GUARD_EXEMPT:
            continue
        for evs in s.events.values():
            for ev in evs:
                if ev.kind == "acc":
                    locks = frozenset(ATOMS[b].args[0] for b, o in map(split, ev.held) if b is not None and ATOMS[b].kind == "G")
                    accs.setdefault(ev.extra[0], []).append((n, ev, locks))
    written = {v for v, l in accs.items() if any(ev.extra[1] == "w" for _, ev, _ in l)}
    for v, l in sorted(accs.items()):
        if v not in written:
            continue
        cnt = {}
        for _, ev, locks in l:
            for k in locks:
                cnt[k] = cnt.get(k, 0) + 1
        lock = max(sorted(cnt), key=lambda k: cnt[k]) if cnt else None
        for n, ev, locks in l:
            if lock is None or lock not in locks:
                what = "writes" if ev.extra[1] == "w" else "reads"
                fn = ev.chain[-1][0] if ev.chain else n
                ctx.violation("%s:%s:%s" % (v, ev.extra[1], ctx_fn(ctx, ev.loc) or fn), "%s %s without holding %s" % (what, v, lock or "any lock"), ctx_fn(ctx, ev.loc) or fn, ev.loc, None, ((n, 0),) + tuple(ev.chain))
        ctx.samples.append("%s: %d accesses, lock %s" % (v, len(l), lock))
    ctx.cov["shared_variables"] = len(accs); ctx.cov["access_sites"] = sum(len(l) for l in accs.values())
    return ("Lockset analysis: every access to a mutable process-wide variable, to the storage of the handle table and every write to a published "
            "record, on every abstract path of every public function except start-up, with the locks held there including the callers'; "
            "all accesses to one variable must share one lock.")

def ctx_fn(ctx, loc):
    """the function a source line belongs to"""
    best = None
    for f in ctx.prog.fns.values():
        if not f.decl and f.file == loc[0] and f.line <= loc[1] and (best is None or f.line > best.line):
            best = f
    return best.name if best else None

# ------------------------------------------------------------------------------------------------ caches
CACHE_EXEMPT = {"sqfs_cache_init", "sqfs_cache_destroy", "sqfs_block_cache_init", "sqfs_blockidx_init", "sqfs_init", "sqfs_destroy",
                "sqfs_open_image", "sqfs_fd_open", "sqfs_fd_close"}

@rule("C03")
def c03(ctx):
    off = {}
    def owner_cache(addr, a):
        """the cache an access belongs to: (address form of the cache, what)"""
        b, o = split(addr)
        if a.kind == "M" and a.tag in ("sqfs_cache.idxs", "sqfs_cache.buf"):
            m = off["idxs"] if a.tag.endswith("idxs") else off["buf"]
            return sub(a.args[0], C(m)), "slots"
        return None, None
    def watch(e, s, ins, addr, size, rw, tag, val=None):
        if not off:
            return
        b, o = split(addr)
        if b is None:
            return
        a = ATOMS[b]
        if a.kind == "H":
            return
        if tag == "sqfs_cache.next":
            e.emit(s, "acc", (sub(addr, C(off["next"])),), ins, ("next slot to evict", rw))
            return
        c, w = owner_cache(addr, a)
        if c is not None:
            e.emit(s, "acc", (c,), ins, (w, rw))
            return
        # contents of a block found in a cache slot
        if a.kind == "M" and tag is None or a.kind == "M":
            for i in sub_atoms(b):
                x = ATOMS[i]
                if x.kind == "M" and x.tag == "sqfs_cache.buf" and i != b:
                    c = sub(x.args[0], C(off["buf"]))
                    e.emit(s, "acc", (c,), ins, ("cached block", rw))
                    return
    e = ctx.load(watch=watch)
    for m in ("next", "idxs", "buf", "mutex"):
        x = ctx.member("sqfs_cache", m)
        if x is None:
            raise Broken("sqfs_cache has no member %s any more" % m)
        off[m] = x[0]
    n_acc = 0; caches = set()
    rts = [n for n in ctx.roots() if n not in CACHE_EXEMPT]
    for n in rts:
        s = ctx.summary(n)
    # the accesses of helpers that expect their caller to hold the lock are decided in the callers
    low = {"sqfs_cache_get", "sqfs_cache_add"}
    for n in rts:
        if n in low:
            continue
        for evs in ctx.summary(n).events.values():
            for ev in evs:
                if ev.kind != "acc":
                    continue
                n_acc += 1
                c = ev.lins[0]
                caches.add(ctx.lockname(c))
                need = addc(c, off["mutex"])
                if need in ev.held:
                    continue
                fn = ctx_fn(ctx, ev.loc)
                who = sorted(ctx.owner(fn, ctx.roots()))
                for w in who:
                    ctx.violation("%s:%s:%s" % (ev.extra[0], ev.extra[1], w), "%s %s of a cache without holding that cache's lock" % ("changes" if ev.extra[1] == "w" else "reads", ev.extra[0]),
                              fn, ev.loc, None, ((n, 0),) + tuple(ev.chain))
    ctx.cov["accesses_checked"] = n_acc; ctx.cov["caches"] = len(caches); ctx.samples = sorted(caches)
    return ("Lockset analysis of the cache structures: every access to a slot table, slot or eviction cursor, and to a block reached through a slot, "
            "on every abstract path of every function except construction and destruction, must happen with the mutex of the same cache held.")

# ------------------------------------------------------------------------------------------------ descriptors
OPENERS = {"squash_open": 1, "squash_open_inner": 1, "squash_opendir": 1, "squash_opendir_inner": 1, "sqfs_fd_open": 1, "vf_": 0}
# how a function reports failure
NEG = {"squash_open", "squash_open_inner", "squash_close", "squash_closedir", "squash_read", "squash_lseek", "squash_stat", "squash_lstat",
       "squash_fstat", "squash_readlink", "squash_scandir", "squash_dirfd"}
NULLF = {"squash_opendir", "squash_opendir_inner", "squash_readdir", "squash_extract", "squash_tmpf", "squash_vfd_file", "squash_find_entry"}

def failkind(n):
    return "neg" if n in NEG else "null" if n in NULLF else "nonzero"

def slot_cells(ctx, x):
    """cells of the table of open handles written by this exit"""
    out = []
    for b, o in x.mem.items():
        a = ATOMS[b]
        ok = a.kind == "M" and a.tag == "squash_fdtable.fds"
        if not ok:
            t = x.mem.get(gvar("squash_global_fdtable").id)
            if t is not None:
                for co, cv in t.cells.items():
                    if not isinstance(co[0], str) and cv[0] == 8 and single(cv[1]) is a:
                        ok = True
        if ok:
            out.extend((b, co, cv[1]) for co, cv in o.cells.items() if not isinstance(co[0], str))
    return out

def errno_of(x):
    """value of errno at an exit; None: not written"""
    o = x.mem.get(gvar("errno").id)
    if o is None:
        return None
    v = o.cells.get(ZERO)
    return v[1] if v is not None else None

@rule("C04")
def c04(ctx):
    e = ctx.load(clients=CLIENTS)
    ctx.need("squash_open", "squash_close", "squash_opendir", "squash_closedir", "squash_extract")
    roots = ctx.roots() + sorted(n for n, f in ctx.prog.fns.items() if n.startswith("vf_") and not f.decl)
    nex = 0; nres = 0
    for n in roots:
        s = ctx.summary(n)
        for x in s.exits:
            nex += 1
            opened = [(r, v) for r, v in x.res.items() if v[0] == "open"]
            nres += len(x.res)
            fail = retclass(x, failkind(n)) if n in OPENERS else False
            allowed = OPENERS.get(n, 0) if not fail else 0
            if fail is None:
                allowed = 1
            en = errno_of(x)
            if n not in OPENERS and en == C(9):
                continue            # the table was found not to hold the handle: nothing left to close (C26 decides that rejection)
            if len(opened) > allowed:
                r, v = opened[-1]
                what = {"fd": "a descriptor", "file": "a stream", "dir": "a host directory stream"}.get(v[1], "a " + str(v[1]))
                ctx.violation("open:%s:%s" % (n, v[1]), "%s %s %s open that was opened at %s:%s" % (n, "fails and leaves" if fail else "leaves", what, rel(v[2][0]), v[2][1]), n, x.loc, x.trace)
            if fail and n in ("squash_open", "squash_opendir"):
                for b, co, v in slot_cells(ctx, x):
                    a = single(v)
                    if a is not None and a.kind == "H" and rng(x, v)[0] > 0:
                        ctx.violation("slot:%s" % n, "%s fails and leaves its handle in the table" % n, n, x.loc, x.trace)
            if n == "squash_close" and x.ret is not None and rng(x, x.ret) == (0, 0) and not x.lossy:
                if not any(v[0] in ("closed", "done") and v[1] == "fd" for v in x.res.values()):
                    ctx.violation("close:fd", "squash_close succeeds without closing the handle's descriptor", n, x.loc, x.trace)
                sl = [v for b, co, v in slot_cells(ctx, x)]
                if not any(v == ZERO for v in sl):
                    ctx.violation("close:slot", "squash_close succeeds and leaves the handle in the table", n, x.loc, x.trace)
            if n == "squash_closedir" and x.ret is not None and rng(x, x.ret) == (0, 0) and not x.lossy:
                if not any(v[0] in ("closed", "done") and v[1] == "fd" for v in x.res.values()):
                    ctx.violation("closedir:fd", "squash_closedir succeeds without closing the stream's handle", n, x.loc, x.trace)
            if n in ("squash_open", "squash_opendir") and fail is False and not x.lossy:
                if len(opened) != 1:
                    ctx.violation("open:none", "%s succeeds with %d descriptors taken" % (n, len(opened)), n, x.loc, x.trace)
    for f in e.findings.values():
        if f.kind in ("badclose", "dclose"):
            ctx.finding(f)
    ctx.cov["exit_paths"] = nex; ctx.cov["descriptors_tracked"] = nres
    return ("Resource typestate: every descriptor and stream created on any abstract path of a public function is followed to each return; "
            "failing returns and all functions that are not openers must have closed it, openers may keep exactly one; "
            "a close of a descriptor that is negative or closed before is a violation; the handle table must not keep a slot of a failed open or of a finished close.")

# ------------------------------------------------------------------------------------------------ host access
PURE_EXT = set("""malloc calloc realloc free strdup strndup memcpy memmove memset memcmp memchr strlen strnlen strcmp strncmp strcasecmp strncasecmp strcpy strncpy
strcat strncat strchr strrchr strstr strspn strcspn strpbrk strtok strtok_r strerror strerror_r qsort bsearch abs labs atoi atol strtol strtoul strtoll strtoull
snprintf sprintf vsnprintf vsprintf sscanf printf fprintf vfprintf vprintf puts putchar fputs fputc putc perror fflush abort exit _exit __assert_fail __errno_location
close dup gnu_dev_makedev gnu_dev_major gnu_dev_minor makedev time atexit
inflateInit_ inflate inflateEnd inflateInit2_ uncompress uncompress2 zlibVersion adler32 crc32 inflateReset
lzo1x_decompress_safe lzma_stream_buffer_decode lzma_memusage BZ2_bzBuffToBuffDecompress
__ctype_b_loc toupper tolower isalpha isdigit isspace getpid pthread_self
__isoc99_sscanf __isoc23_sscanf __isoc23_strtol __isoc23_strtoul __stack_chk_fail htons ntohs htonl ntohl htole16 le16toh
gettimeofday clock clock_gettime rand srand random usleep nanosleep sched_yield getenv secure_getenv""".split())
HOST_OK_ROOTS = {"squash_extract", "squash_extract_clear_cache", "squash_tmpdir", "squash_tmpf", "squash_halt"}

def external_class(n):
    """None: harmless; otherwise why this external function is host access"""
    if n in PURE_EXT or n.startswith("llvm.") or n.startswith("pthread_mutex") or n.startswith("pthread_") or n.startswith("__builtin"):
        return None
    if n in HOST:
        return HOST[n]
    return None

HOST = {}
for what, names in {
    "opens or creates a host file": "open open64 openat openat64 creat creat64 fopen fopen64 freopen freopen64 fdopen tmpfile tmpfile64 mkstemp mkstemp64 mkostemp mkdtemp shm_open dlopen opendir fdopendir popen memfd_create",
    "inspects the host file system": "stat stat64 lstat lstat64 fstatat fstatat64 __xstat __lxstat __fxstat __xstat64 __lxstat64 fstat fstat64 statx access faccessat euidaccess readlink readlinkat realpath canonicalize_file_name scandir scandir64 readdir readdir64 getcwd get_current_dir_name glob nftw ftw pathconf statfs statvfs fstatfs",
    "changes the host file system": "unlink unlinkat remove rmdir mkdir mkdirat rename renameat renameat2 link linkat symlink symlinkat truncate ftruncate chmod fchmod fchmodat chown lchown fchown fchownat utime utimes utimensat futimens mknod mkfifo chdir fchdir chroot tmpnam tempnam mktemp umask",
    "reads or writes a host descriptor": "read write pread pread64 pwrite pwrite64 readv writev lseek lseek64 fread fwrite fgets fseek fseeko ftell sendfile mmap mmap64 fcntl ioctl fsync dup2 dup3 pipe select poll",
    "starts a process": "fork vfork system execve execv execvp execl execlp execle posix_spawn posix_spawnp clone",
    "uses the network": "socket connect bind listen accept send recv sendto recvfrom sendmsg recvmsg getaddrinfo gethostbyname"}.items():
    for n in names.split():
        HOST[n] = what
# standard output and error are not the host's files
STDIO = {"printf", "fprintf", "puts", "fwrite", "fputs", "fputc", "perror", "putchar", "fflush", "putc"}

@rule("C11")
def c11(ctx):
    e = ctx.load()
    roots = [n for n in ctx.roots() if n not in HOST_OK_ROOTS]
    # calls and functions handed on as callbacks, except those registered to run at exit
    edges = {}; sites = {}; nsites = 0
    p = ctx.prog
    for f in p.fns.values():
        if f.decl:
            continue
        out = edges.setdefault(f.name, set())
        for B in f.blocks:
            for i in B:
                if i["op"] != "call":
                    continue
                nsites += 1
                c = i["callee"]
                if c[0] == "f":
                    out.add(c[1]); sites.setdefault((f.name, c[1]), i)
                    if c[1] in ("atexit", "on_exit"):
                        continue
                    for a in i["a"]:
                        if a[0] == "f":
                            out.add(a[1]); sites.setdefault((f.name, a[1]), i)
                else:
                    for t in p.targets(i):
                        out.add(t); sites.setdefault((f.name, t), i)
    reached = set()
    for r in roots:
        prev = {r: None}; st = [r]
        while st:
            x = st.pop(0)
            for c in sorted(edges.get(x, ())):
                if c in prev or c in HOST_OK_ROOTS:
                    continue
                prev[c] = x
                fn = p.fns.get(c)
                if fn is not None and not fn.decl:
                    st.append(c)
                    continue
                reached.add(c)
                why = HOST.get(c)
                if why and not (c == "fwrite" and stdstream(p, x, c)):
                    path = []; y = c
                    while y is not None:
                        path.append(y); y = prev[y]
                    i = sites[(x, c)]
                    ctx.violation("%s:%s" % (x, c), "%s reaches %s, which %s" % (r, c, why), x, (p.fns[x].file, i["l"]), None, [(q, 0) for q in path[::-1]])
    ctx.cov["public_functions"] = len(roots); ctx.cov["call_sites"] = nsites; ctx.cov["external_functions_reached"] = len(reached)
    ctx.cov["functions_analysed"] = len(edges)
    ctx.samples = sorted(reached)
    # extraction only creates the names it made itself
    return ("Effect analysis over the call graph (direct calls, calls through every stored function pointer of a matching type, functions passed on): "
            "from no public function other than extraction is any function reachable that opens, inspects or changes host files, starts a process or uses the network.")

def stdstream(p, fn, name):
    """all calls of name in fn write to stderr/stdout"""
    for B in p.fns[fn].blocks:
        for i in B:
            if i["op"] == "call" and i["callee"][0] == "f" and i["callee"][1] == name:
                s = i["a"][-1]
                g = p.fns[fn].ins.get(s[1]) if s[0] == "v" else None
                if g is None or g["op"] != "load" or g["p"][0] != "g" or g["p"][1] not in ("stderr", "stdout"):
                    return False
    return True

# ------------------------------------------------------------------------------------------------ invalid handles
def fdtable(ctx):
    """addresses of the table's members: (storage, extent)"""
    g = ctx.prog.globals.get("squash_global_fdtable")
    d = ctx.prog.dis.get(g["ty"]) if g else None
    if not d:
        raise Broken("there is no table of open handles any more")
    m = {x[0]: x for x in d["members"]}
    if "fds" not in m or "nr" not in m:
        raise Broken("the table of open handles has no members fds and nr any more")
    G = V(gvar("squash_global_fdtable"))
    return addc(G, m["fds"][1]), addc(G, m["nr"][1])

HANDLE_FNS = (("squash_close", -1), ("squash_read", -1), ("squash_lseek", -1), ("squash_fstat", -1))

@rule("C26")
def c26(ctx):
    base = {}
    def watch(e, s, ins, addr, size, rw, tag, val=None):
        b, off = split(addr)
        if b is None:
            return
        a = ATOMS[b]
        if a.kind == "M" and a.args[0] == base.get("fds"):
            e.emit(s, "slot", (addr,), ins, rw)
    e = ctx.load(watch=watch)
    fds, nr = fdtable(ctx)
    base["fds"] = fds
    def slot(st, args):
        return add(e.read(st, fds, 8, True, "squash_fdtable.fds"), scale(args[0], 8))
    def neg(e, st, args):
        return st.add_le(addc(args[0], 1))
    def big(e, st, args):
        n = e.read(st, nr, 8, False, "squash_fdtable.nr")
        return st.add_le(sub(n, args[0])) and st.add_le(neg_(n))
    def neg_(L):
        return sub(ZERO, L)
    def empty(e, st, args):
        n = e.read(st, nr, 8, False, "squash_fdtable.nr")
        if not (st.add_le(neg_(args[0])) and st.add_le(addc(sub(args[0], n), 1))):
            return False
        v = e.read(st, slot(st, args), 8, True)
        return st.add_le(v) and st.add_le(neg_(v))
    nq = 0; nex = 0
    for fn, want in HANDLE_FNS:
        ctx.need(fn)
        for name, setup in (("a negative number", neg), ("a number beyond the table", big), ("a number with no open handle", empty)):
            ctx.summary(fn)
            s = e.query(fn, setup)
            nq += 1
            if s is None:
                raise Broken("the assumptions about %s contradict each other" % fn)
            for x in s.exits:
                nex += 1
                k = "%s:%s" % (fn, name)
                bad = None
                en = errno_of(x)
                if x.ret is None or x.ret != C(want):
                    bad = "does not fail when given %s" % name
                elif en != C(9):
                    bad = "fails with something other than EBADF when given %s" % name
                elif x.res or x.freed or x.heap:
                    bad = "closes or frees something when given %s" % name
                elif any(not (ATOMS[b].kind == "G" and ATOMS[b].args[0] == "errno") and (o.cells or o.ovl) for b, o in x.mem.items()):
                    bad = "changes memory when given %s" % name
                if bad:
                    ctx.violation(k, "%s %s" % (fn, bad), fn, x.loc, x.trace)
            # memory of the table outside its extent
            for evs in s.events.values():
                for ev in evs:
                    if ev.kind == "slot" and name != "a number with no open handle":
                        ctx.violation("%s:%s:touch" % (fn, name), "%s touches memory outside the handle table when given %s" % (fn, name), fn, ev.loc, None, ev.chain)
    # a closed handle is rejected afterwards, and so is one whose number was never given out
    s = ctx.summary("squash_close")
    for x in s.exits:
        if x.ret == ZERO and not x.lossy and not any(v == ZERO for b, co, v in slot_cells(ctx, x)):
            ctx.violation("close:slot", "squash_close succeeds and leaves the handle in the table", "squash_close", x.loc, x.trace)
    if ctx.defined("squash_start"):
        for x in ctx.summary("squash_start").exits:
            o = x.mem.get(gvar("squash_global_fdtable").id)
            n = e_cell(o, sub(nr, V(gvar("squash_global_fdtable"))))
            ok = x.ret is not None and x.ret != ZERO or n == ZERO
            if not ok:
                ctx.violation("start:nr", "squash_start does not start with an empty table of handles", "squash_start", x.loc, x.trace)
    ctx.cov["queries"] = nq; ctx.cov["exit_paths"] = nex
    return ("For each of close, read, seek and fstat, and for each way a number can fail to name an open handle (negative, beyond the table, empty slot), "
            "all abstract paths under that assumption must return the failure value with errno EBADF, write nothing but errno, close and free nothing; "
            "closing must empty the slot and start-up must leave no slot.")

def e_cell(o, off):
    if o is None:
        return None
    c = o.cells.get(off)
    return c[1] if c is not None else None

import rules_report, rules_image, rules_layout, rules_behaviour, rules_caches, rules_links, rules_retain, rules_extract, rules_scan, rules_sample, rules_lookup, rules_walk, rules_index, rules_paths, rules_handles, rules_containers, rules_reads
