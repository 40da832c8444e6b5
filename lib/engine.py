"""Compositional abstract interpreter: bottom-up function summaries over symbolic memory."""
import sys, time
from terms import *
from state import *
from program import Program, typerange
from frontend import Broken, Budget

LIMIT = [None]         # when the whole check has to be done

class Event:
    """An obligation or effect seen while analysing a function, expressed over that function's inputs."""
    __slots__ = ("kind", "lins", "extra", "held", "bnd", "ineq", "neq", "loc", "chain", "faults")
    def __init__(self, kind, lins, extra, held, bnd, ineq, neq, loc, chain=(), faults=frozenset()):
        self.kind = kind; self.lins = lins; self.extra = extra; self.held = held
        self.bnd = bnd; self.ineq = ineq; self.neq = neq; self.loc = loc; self.chain = chain; self.faults = faults

CUT = ("cut",)

class Exit:
    __slots__ = ("ret", "mem", "bnd", "ineq", "neq", "locks", "rel", "heap", "freed", "res", "faults",
                 "trace", "loc", "marks", "lossy", "env", "arith", "alts")

class Summary:
    def __init__(self):
        self.exits = []; self.events = {}; self.keyset = None; self.noreturn = False; self.raw = 0

class Finding:
    def __init__(self, kind, fn, loc, msg, chain=(), trace=None, extra=None):
        self.kind = kind; self.fn = fn; self.loc = loc; self.msg = msg; self.chain = chain; self.trace = trace
        self.extra = extra; self.faults = set()
    def key(self):
        return (self.kind, self.fn, self.loc, self.msg)

class Engine:
    MAXB = 16       # disjuncts per block before merging
    MAXX = 8       # exit disjuncts per summary
    def __init__(self, prog, models, budget=None, watch=None):
        self.p = prog; self.models = models
        self.sums = {}; self.inprog = {}
        self.lost = set()
        self.findings = {}
        self.watch = watch
        self.markfacts = False       # keep what is known of the values in marks
        self.stats = {"functions": 0, "blocks": 0, "steps": 0, "merges": 0, "calls": 0, "events": 0, "unknown_ext": set(),
                      "loops": 0, "lossy": 0, "instrs": 0}
        self.reg = {}          # pointer form -> (start form, capacity) of array members
        self.deadline = None
        self.tables = {}
        self.recs = {}
        self.peel = 0          # exact rounds of every loop; 0: all rounds, by widening
        self.datum = None      # value of a piece of recorded data, where the rule fixes it
        self.opaque = set()    # functions replaced by a model even if defined
        self.inline = 0        # calls looked at in the caller's own state, this deep (0: summaries only)
        self.inlined = []      # the calls being looked at that way
        self.eager = True
        self.onwrite = self.onfree = None   # called at every write / free
        self.errmark = False   # note on each path how errno was last written
        self.errfilter = None; self.errtypes = ()     # results of these types that are not zero count as failures of the path
        self.scc_active = {}
        self.curcaps = (self.MAXB, self.MAXX)

    # ------------------------------------------------------------------ helpers
    def finding(self, kind, st, ins, msg, extra=None, fn=None, loc=None, chain=()):
        f = Finding(kind, fn or self.cur.name, loc or self.loc(ins), msg, chain, st.trace if st else None, extra)
        f = self.findings.setdefault(f.key(), f)
        if st is not None:
            f.faults.add(st.faults)

    def loc(self, ins):
        return (ins.get("lf") or self.p.fns[ins["fn"]].file, ins.get("l", 0))

    def fresh(self, ins, what="", lo=-INF, hi=INF, ptr=False, tag=None):
        return V(mk("F", (self.ctx, ins["i"], self.stamp, what), lo, hi, ptr, tag))

    # views
    def U(self, st, x, w):
        """unsigned reading of x as w bits; list of (state, value)"""
        x = st.norm(x)
        if not x[1]:
            return [(st, C(x[0] & ((1 << w) - 1)))]
        lo, hi = st.lb(x), st.ub(x)
        if lo >= 0 and (w == 64 or hi < (1 << w)):
            return [(st, x)]
        if st.le0(neg(x)):
            return [(st, x)]
        if w < 64 and hi >= (1 << w):
            return [(st, V(mk("OP", ("zx", w, x), 0, (1 << w) - 1)))]
        out = []
        s1 = st.copy()
        if s1.add_le(neg(x)):
            out.append((s1, x))
        s2 = st
        if s2.add_le(addc(x, 1)):
            out.append((s2, addc(x, 1 << w)))
        return out

    def zx(self, st, x, w):
        x = st.norm(x)
        if not x[1]:
            return C(x[0] & ((1 << w) - 1))
        if st.lb(x) >= 0 and st.ub(x) < (1 << w):
            return x
        if st.le0(neg(x)) and st.ub(x) < (1 << w):
            return x
        return V(mk("OP", ("zx", w, x), 0, (1 << w) - 1))

    def sx(self, st, x, w):
        x = st.norm(x)
        h = 1 << (w - 1)
        if not x[1]:
            v = x[0] & ((1 << w) - 1)
            return C(v - (1 << w) if v >= h else v)
        lo, hi = st.lb(x), st.ub(x)
        if lo >= -h and hi < h:
            return x
        a = single(x)
        if (a is None or a.kind in ("P", "W", "J", "F")) and lo >= -INF and not (lo >= 0 and hi >= h and hi < 2 * h):
            # arithmetic on signed values: no wrap assumed
            if a is None:
                return x
            if a.lo == -INF and a.hi == INF:
                st.bnd[a.id] = (max(lo, -h), min(hi, h - 1))
                return x
        return V(mk("OP", ("sx", w, x), -h, h - 1))

    def tr(self, st, x, w):
        x = st.norm(x)
        if not x[1]:
            v = x[0] & ((1 << w) - 1)
            if w == 1:
                return C(v)
            return C(v - (1 << w) if v >= (1 << (w - 1)) else v)
        lo, hi = st.lb(x), st.ub(x)
        if (lo >= 0 and hi < (1 << w)) or (lo >= -(1 << (w - 1)) and hi < (1 << (w - 1))):
            return x
        a = single(x)
        if a is not None and a.kind == "OP" and a.args[0] in ("zx", "sx") and a.args[1] >= w:
            return self.tr(st, a.args[2], w)
        return V(mk("OP", ("tr", w, x), -(1 << (w - 1)), (1 << w) - 1))

    # ------------------------------------------------------------------ memory
    def kind_val(self, st, kind, off, size, ptr, tag, ty):
        k = kind[0]
        if k == "z":
            return ZERO
        if k == "u":
            return V(mk("U", (kind, off, size, self.ctx), ptr=ptr))
        lo, hi = -INF, INF
        r = typerange(ty, size) if ty else None
        if ptr:
            lo, hi = 0, INF
        elif r:
            lo, hi = r
        if k == "D":
            rel = sub(off, kind[2])
            if self.datum is not None:
                v = self.datum(kind[1], rel, size)
                if v is not None:
                    return v
            return V(mk("D", (kind[1], rel, size), lo if ptr else -INF, hi if ptr else INF, ptr, tag))
        if k == "E":
            addr = add(kind[1], sub(off, kind[2]))
            b, o = split(addr)
            if b is not None and ATOMS[b].kind == "G" and not o[1]:
                g = self.p.globals.get(ATOMS[b].args[0])
                if g is not None and g["const"] and not g["decl"]:
                    for c in g.get("init", ()):
                        if c[0] == o[0] and c[1] == size:
                            return self.constop(c[2])
                    if o[0] + size <= g["size"] and not ptr:
                        return ZERO
            return V(mk("M", (addr, size), lo, hi, ptr, tag))
        raise Broken("kind " + k)

    def read(self, st, addr, size, ptr=False, tag=None, ty=None):
        addr = st.norm(addr)
        b, off = split(addr)
        if b is None:
            return V(mk("D", (mk("RAW", (addr,)).id, ZERO, size), ptr=ptr))
        o = st.mem.get(b)
        if o is None:
            return self.kind_val(st, default_kind(b), off, size, ptr, tag, ty)
        c = o.cells.get(off)
        if c is not None:
            if c[0] == size:
                return st.norm(c[1])
            if not c[1][1] and c[0] > size:
                v = c[1][0] & ((1 << (8 * size)) - 1)
                return C(v)
            if c[0] > size:
                return V(mk("OP", ("tr", 8 * size, c[1]), -(1 << (8 * size - 1)), (1 << (8 * size)) - 1))
            # fall through: wider read over narrower cells
        for co, cv in o.cells.items():
            if co is off or isinstance(co[0], str):
                continue
            d = sub(off, co)
            if not d[1]:
                if -size < d[0] < cv[0]:
                    if d[0] == 0 and cv[0] == size:
                        return st.norm(cv[1])
                    if d[0] >= 0 and d[0] + size <= cv[0]:
                        if not cv[1][1]:
                            return C((cv[1][0] >> (8 * d[0])) & ((1 << (8 * size)) - 1))
                        return V(mk("OP", ("slice", 8 * d[0], 8 * size, cv[1]), 0, (1 << (8 * size)) - 1))
                    return V(mk("F", ("mix", self.ctx, addr, size, cv[1]), ptr=ptr))
            elif cv[0] == size and st.is0(d):
                return st.norm(cv[1])
        for ov in reversed(o.ovl):
            if ov[0][1] and not off[1] and ov[1] is not None:
                ext = self.array_at(b, ov[0])
                if ext is not None and (off[0] >= ext[1] or off[0] + size <= ext[0]):
                    continue
            r = self.inside(st, off, C(size), ov)
            if r is True:
                return self.kind_val(st, ov[2], off, size, ptr, tag, ty)
            if r is None:
                if ov[2][0] == "D":
                    return self.kind_val(st, ov[2], off, size, ptr, tag, ty)
                return V(mk("F", ("may", self.ctx, addr, size, ov[2]), ptr=ptr))
        return self.kind_val(st, o.dflt, off, size, ptr, tag, ty)

    def inside(self, st, off, size, ov):
        """is [off, off+size) inside region ov?  True / False (disjoint) / None"""
        d = sub(off, ov[0])
        if ov[1] is None:
            if st.le0(addc(add(d, size), 0)):
                return False
            return None if d[1] else (d[0] >= 0 and None)
        if st.le0(add(d, size)):
            return False
        e = sub(ov[1], d)                 # remaining length at off
        if st.le0(e):
            return False
        if st.le0(neg(d)) and st.le0(sub(size, e)):
            return True
        return None

    def record_of(self, b):
        """the name of the record type at the start of object b, when it is one"""
        a = ATOMS[b]
        if a.kind == "A":
            return self.recs.get(b)
        t = a.tag
        if a.kind == "P":
            t = a.tag or ""
        elif a.kind == "M" and a.tag:
            r, f = (a.tag.split(".", 1) + [""])[:2]
            d = self.p.dis.get(r)
            t = next((m[3] for m in d["members"] if m[0] == f), "") if d else ""
        else:
            return None
        t = t.replace("const ", "")
        if t.startswith("*") and t[1:] in self.p.dis:
            return t[1:]
        return None

    def array_at(self, b, off):
        """extent of the array member a computed offset indexes"""
        if off[1] and off[0] >= 0:
            rec = self.record_of(b)
            if rec is not None:
                ext = self.p.member_extent(rec, off[0])
                if ext is not None and ext[1] - ext[0] > 8:
                    return ext
        return None

    def clobber(self, st, b, o, off, size):
        """drop cells that may overlap [off, off+size) (size: form or None).  A write at a computed index of an array
        member of a record is taken to stay inside that member (what else it could hit is the bounds rules' business)."""
        dead = []; part = []
        ext = self.array_at(b, off) if size is not None else None
        for co, cv in o.cells.items():
            if isinstance(co[0], str):
                dead.append(co); continue
            if ext is not None and not co[1] and (co[0] >= ext[1] or co[0] + cv[0] <= ext[0]):
                continue
            d = sub(co, off)
            if size is not None and not d[1] and not size[1]:
                if -cv[0] < d[0] < size[0]:
                    dead.append(co)
                    if d[0] < 0 or d[0] + cv[0] > size[0]:
                        part.append((co, cv[0]))
                continue
            if st.le0(addc(d, cv[0])):
                continue
            if size is not None and st.le0(sub(size, d)):
                continue
            dead.append(co)
            if size is None or not (st.le0(neg(d)) and st.le0(sub(addc(d, cv[0]), size))):
                part.append((co, cv[0]))
            for i, _ in cv[1][1]:          # perhaps overwritten, perhaps not: the block is no longer tracked
                if ATOMS[i].kind == "H" and i in st.heap and st.heap[i][0] == "live":
                    del st.heap[i]
        for co in dead:
            del o.cells[co]
        if part:
            # what is left of them is not known, and is not what the object held before them either
            self.unknown_part(o, part)

    def unknown_part(self, o, part):
        if len(part) > 3:
            if all(not co[1] for co, _ in part):
                lo = min(co[0] for co, _ in part); hi = max(co[0] + n for co, n in part)
                part = [(C(lo), hi - lo)]
            else:
                part = [(ZERO, None)]
        for co, n in part:
            n = C(n) if n is not None else None
            ov = (co, n, ("D", mk("F", ("part", self.ctx, co, n)).id, ZERO))
            if ov not in o.ovl:
                o.ovl = o.ovl + (ov,)
        if len(o.ovl) > 14:
            o.ovl = ((ZERO, None, ("D", mk("F", ("many", self.ctx, part[-1][0])).id, ZERO)),) + o.ovl[-8:]

    def write(self, st, addr, size, val):
        addr = st.norm(addr)
        b, off = split(addr)
        if b is None:
            return
        if self.errmark and ATOMS[b].kind == "G" and ATOMS[b].args[0] == "errno":
            st.marks = frozenset(m for m in st.marks if m[0] != "errno") | frozenset([("errno", self.errclass(st, val))])
        o = st.wobj(b)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, val)
            if any(isinstance(k[0], str) for k in o.cells):
                for k in [k for k in o.cells if isinstance(k[0], str)]:
                    del o.cells[k]
            return
        if o.cells:
            self.clobber(st, b, o, off, C(size))
        o.cells[off] = (size, val)

    def errclass(self, st, v):
        z = st.ev(("eq", v))
        if z is not None:
            return "zero" if z else "set"
        a = single(st.norm(v))
        return "entry" if a is not None and a.kind == "M" else "maybe"

    def write_region(self, st, addr, size, kind):
        """size: form or None (unknown extent from addr on)"""
        addr = st.norm(addr)
        if size is not None:
            size = st.norm(size)
            if not size[1] and size[0] <= 0:
                return
        b, off = split(addr)
        if b is None:
            return
        o = st.wobj(b)
        if o.cells:
            self.clobber(st, b, o, off, size)
        ov = (off, size, kind)
        # drop regions fully covered by the new one
        keep = []
        for x in o.ovl:
            if size is not None and x[1] is not None and self.inside(st, x[0], x[1], ov) is True:
                continue
            keep.append(x)
        if len(keep) > 14:
            keep = [(ZERO, None, ("D", mk("F", ("many", self.ctx, b)).id, ZERO))] + keep[-8:]
        o.ovl = tuple(keep) + (ov,)

    def regions_of(self, st, addr, size):
        """flatten the content of [addr, addr+size) -> (list of (relstart, len, kind-with-org relative to 0)), cells"""
        addr = st.norm(addr)
        b, off = split(addr)
        out = []; cells = []
        if b is None:
            return [(ZERO, size, ("D", mk("RAW", (addr,)).id, ZERO))], cells
        o = st.mem.get(b) or Obj(default_kind(b))
        def shift(kind, org_abs):
            # kind org is in object offsets; content at object offset x is kind(x - org)
            if kind[0] in ("D", "E"):
                return kind[:2] + (sub(kind[2], off),)
            return kind
        out.append((ZERO, size, shift(o.dflt, off)))
        for ov in o.ovl:
            r = self.inside(st, off, size, ov)
            if r is True:
                out = [(ZERO, size, shift(ov[2], off))]
                continue
            if r is False:
                continue
            d = sub(ov[0], off)
            if ov[1] is not None and not d[1] and not ov[1][1] and not size[1]:
                lo = max(0, d[0]); hi = min(size[0], d[0] + ov[1][0])
                if hi > lo:
                    out.append((C(lo), C(hi - lo), shift(ov[2], off)))
            elif ov[1] is not None and st.le0(neg(d)) and st.le0(sub(add(d, ov[1]), size)):
                out.append((d, ov[1], shift(ov[2], off)))
            else:
                out.append((ZERO, size, ("D", mk("F", ("mixr", self.ctx, addr, size, ov[2])).id, ZERO)))
        for co, cv in o.cells.items():
            if isinstance(co[0], str):
                continue
            d = sub(co, off)
            if st.le0(neg(d)) and st.le0(sub(addc(d, cv[0]), size)):
                cells.append((d, cv[0], cv[1]))
            elif st.le0(addc(d, cv[0])) or st.le0(sub(size, d)):
                continue
            else:
                out.append((ZERO, size, ("D", mk("F", ("mixc", self.ctx, addr, size, cv[1])).id, ZERO)))
        return out, cells

    def put_regions(self, st, addr, regs, cells):
        addr = st.norm(addr)
        b, off = split(addr)
        for s, l, k in regs:
            if k[0] in ("D", "E"):
                k = k[:2] + (add(k[2], off),)
            self.write_region(st, add(addr, s), l, k)
        for d, sz, v in cells:
            self.write(st, add(addr, d), sz, v)

    def copy_mem(self, st, dst, src, n):
        n = st.norm(n)
        if n[1]:
            # variable length: opaque content
            if st.le0(n):
                return
            sb, so = split(st.norm(src))
            if self.peel and sb is not None:
                o = st.mem.get(sb)
                if o is None or not o.cells and not o.ovl and o.dflt == default_kind(sb) and o.dflt[0] == "E":
                    # memory as it was at entry
                    self.write_region(st, dst, n, ("E", src, split(st.norm(dst))[1]))
                    return
                regs, cells = self.regions_of(st, src, n)
                if len(regs) == 1 and not cells and (regs[0][2][0] == "E" or regs[0][2][0] == "D" and ATOMS[regs[0][2][1]].kind == "OP"):
                    self.put_regions(st, dst, regs, cells)      # content of one known source
                    return
            tok = mk("F", ("cpy", self.ctx, self.stamp, dst, n, st.norm(src)))
            self.write_region(st, dst, n, ("D", tok.id, split(st.norm(dst))[1]))
            return
        regs, cells = self.regions_of(st, src, n)
        self.put_regions(st, dst, regs, cells)

    # ------------------------------------------------------------------ operands
    def constop(self, o):
        k = o[0]
        if k == "c":
            v = int(o[1])
            if len(o) > 2 and o[2] == 1:
                v &= 1
            return C(v)
        if k == "n":
            return ZERO
        if k == "g":
            return addc(V(self.gatom(o[1])), o[2])
        if k == "f":
            return V(mk("FN", (o[1],), 4096, INF, True))
        if k == "u":
            return V(mk("U", ("undef", self.ctx), -INF, INF))
        return V(mk("U", ("x", str(o)), -INF, INF))

    def gatom(self, n):
        return mk("G", (n,), 4096, INF, True)

    def val(self, st, o):
        k = o[0]
        if k == "v":
            return st.env[o[1]]
        if k == "a":
            return self.args[o[1]]
        return self.constop(o)

    # ------------------------------------------------------------------ events
    def emit(self, st, kind, lins, ins=None, extra=None, facts=True, loc=None, chain=()):
        loc = loc or self.loc(ins)
        if facts:
            bnd = {i: b for i, b in st.bnd.items() if ATOMS[i].inp}
            ineq = tuple(f for f in st.ineq if lin_inp(f))
            neq = tuple(f for f in st.neq if lin_inp(f))
        else:
            bnd = {}; ineq = (); neq = ()
        held = st.locks
        key = (kind, loc, lins, extra, held if kind in ("acc", "lock", "pay", "callback") else None)
        vs = self.events.setdefault(key, [])
        if not facts:
            if vs:
                return
        else:
            for v in vs:
                # weaker facts already recorded?
                if all(bnd.get(i) == b for i, b in v.bnd.items()) and set(v.ineq) <= set(ineq) and set(v.neq) <= set(neq):
                    return
            if len(vs) >= 6:
                return
        vs.append(Event(kind, lins, extra, held, bnd, ineq, neq, loc, chain, st.faults))
        self.stats["events"] += 1

    def deref(self, st, addr, ins, what, size=None, chain=(), loc=None, lifted=False):
        """check an access through addr; returns False if the path is dead"""
        addr = st.norm(addr)
        if not addr[1] and abs(addr[0]) < 4096 and not st.faults and what == "write" and not lifted and not chain:
            self.finding("nullc", st, ins, "%s through a null pointer" % what, loc=loc, chain=chain)
        b, off = split(addr)
        if b is None:
            self.finding("null", st, ins, "%s through a null pointer" % what, loc=loc, chain=chain)
            return False
        a = ATOMS[b]
        lo, hi = st.lohi(b)
        if hi == 0:
            self.finding("null", st, ins, "%s through a null pointer" % what, loc=loc, chain=chain)
            return False
        if a.kind == "H":
            h = st.heap.get(b)
            if h is not None and h[0] == "freed":
                self.finding("uaf", st, ins, "%s of memory freed at line %s" % (what, h[3][1]), loc=loc, chain=chain)
                return False
        elif st.freed:
            fb = V(a)
            if fb in st.freed:
                self.finding("uaf", st, ins, "%s of memory (%s) freed at line %s" % (what, show(fb), st.freed[fb][1]), loc=loc, chain=chain)
                return False
        if a.kind in ("U",):
            self.finding("uninit", st, ins, "%s through an uninitialised pointer" % what, loc=loc, chain=chain)
            return False
        if a.inp and a.kind in ("P", "M") and b not in st.seen:
            self.emit(st, "deref", (V(a),), ins, what, loc=loc, chain=chain)
            st.seen[b] = True
            if lo < 1 and not st._setb(b, 1, hi):
                return False
        return True

    # ------------------------------------------------------------------ summaries
    def summary(self, name, consts=()):
        key = (name, consts)
        s = self.sums.get(key)
        if s is not None:
            return s
        if key in self.inprog:
            return self.inprog[key]
        if self.p.recursive(name):
            scc = tuple(self.p.sccof[name])
            act = self.scc_active.get(scc)
            if act is not None:
                # another member of the cycle under iteration: start from "does not return"
                self.inprog[key] = Summary()
                act.append(key)
                return self.inprog[key]
            keys = self.scc_active[scc] = [key]
            self.inprog[key] = Summary()
            for rnd in range(6):
                changed = False
                for k in keys:
                    s = self.analyse(*k)
                    s.keyset = frozenset(self.exit_key(x, 3) for x in s.exits)
                    if s.keyset != self.inprog[k].keyset:
                        changed = True
                    self.inprog[k] = s
                if not changed:
                    break
            else:
                self.stats["lossy"] += 1
                self.stats.setdefault("lossy_loops", []).append((name, "recursion"))
            for k in keys:
                self.sums[k] = self.inprog.pop(k)
            del self.scc_active[scc]
            return self.sums[key]
        self.sums[key] = s = self.analyse(name, consts)
        return s

    def ptypes(self, fn):
        """argument atoms of a function"""
        out = []
        for n, (pn, pt) in enumerate(fn.params):
            ty = fn.dity[n + 1] if len(fn.dity) > n + 1 else None
            if pt == "ptr":
                a = mk("P", (fn.name, n), 0, INF, True, ty)
            else:
                w = int(pt[1:]) if pt.startswith("i") else 64
                r = typerange(ty, w // 8) if ty else None
                a = mk("P", (fn.name, n), r[0] if r else -INF, r[1] if r else INF, False, ty)
            out.append(a)
        return out

    def query(self, name, setup):
        """exits of a function under assumptions on its arguments and on memory; setup(engine, state, args) returns False if
        they contradict each other"""
        return self.analyse(name, (), setup)

    def analyse(self, name, consts=(), setup=None):
        fn = self.p.fns[name]
        saved = [getattr(self, k, None) for k in ("cur", "ctx", "stamp", "args", "events", "exits", "lossy_here", "inlined")]
        self.inlined = []
        self.cur = fn; self.ctx = (name, consts); self.stamp = (); self.events = {}; self.exits = []; self.lossy_here = False
        self.args = [V(a) for a in self.ptypes(fn)]
        for i, c in consts:
            self.args[i] = V(mk("FN", (c,), 4096, INF, True))
        self.stats["functions"] += 1
        try:
            st = St()
            if setup is not None and setup(self, st, self.args) is False:
                return None
            back, ex = self.run(None, {0: [st]})
            s = Summary()
            s.raw = len(self.exits)
            s.exits = self.reduce_exits(self.exits)
            s.events = self.events
            s.lossy = self.lossy_here
            self.clip(s)
            return s
        finally:
            for k, v in zip(("cur", "ctx", "stamp", "args", "events", "exits", "lossy_here", "inlined"), saved):
                setattr(self, k, v)

    def declared(self, b):
        """a function given a buffer and, right after it, the buffer's size: that it stays inside is C01's obligation"""
        for n, (pn, pt) in enumerate(self.cur.params[:-1]):
            if V(ATOMS[b]) == self.args[n] and pt == "ptr":
                ty = (self.cur.dity[n + 1] if len(self.cur.dity) > n + 1 else None) or ""
                ts = (self.cur.dity[n + 2] if len(self.cur.dity) > n + 2 else None) or ""
                if ty in ("*void", "*char", "*unsigned char") and ts in ("size_t", "unsigned long"):
                    return {self.args[n + 1]}
        return ()

    def clip(self, s):
        """a region of unknown extent behind an argument: limit it by the bound the writes there obey"""
        cand = {}
        for vs in s.events.values():
            for ev in vs:
                if ev.kind == "write":
                    for hi in ev.lins[1:]:
                        if all(ATOMS[i].kind == "P" for i, _ in hi[1]):
                            cand.setdefault(ev.lins[0], set()).add(hi)
        for x in s.exits:
            for b, o in x.mem.items():
                if not any(ov[1] is None for ov in o.ovl):
                    continue
                c = cand.get(V(ATOMS[b])) or ()
                if len(c) != 1:
                    c = self.declared(b)
                if len(c) == 1:
                    hi = next(iter(c))
                    o.ovl = tuple((ov[0], sub(hi, ov[0]), ov[2]) if ov[1] is None else ov for ov in o.ovl)

    # ------------------------------------------------------------------ regions
    def run(self, loop, pending):
        fn = self.cur
        order, kids = fn.order[loop.header if loop else None]
        back = []; exits = {}
        inner = {b: h for h, l in kids.items() for b in l.blocks}
        first = True
        while pending:
            b = min(pending, key=lambda x: order[x])
            states = pending.pop(b)
            if b in kids and not (loop is not None and b == loop.header):
                ex = self.run_loop(kids[b], states)
                for t, ss in ex.items():
                    self.route(loop, t, ss, pending, back, exits, inner)
                continue
            if len(states) > 1 and not (first and loop is not None):
                states = self.merge(states, b)
            first = False
            self.stats["blocks"] += 1
            for st in states:
                for t, s2 in self.block(st, b):
                    self.route(loop, t, [s2], pending, back, exits, inner)
            if self.deadline and time.time() > self.deadline:
                raise Broken("time budget exhausted in %s" % fn.name)
            if LIMIT[0] and time.time() > LIMIT[0]:
                raise Budget("in %s" % fn.name)
        return back, exits

    def route(self, loop, t, ss, pending, back, exits, inner):
        if loop is not None and t == loop.header:
            back.extend(ss)
        elif loop is not None and t not in loop.blocks:
            exits.setdefault(t, []).extend(ss)
        else:
            pending.setdefault(t, []).extend(ss)

    def edge(self, st, frm, to):
        fn = self.cur
        ph = fn.phis[to]
        env = st.env
        if ph:
            vals = []
            for p in ph:
                for pb, v in p["in"]:
                    if pb == frm:
                        vals.append((p["i"], self.val(st, v))); break
            for i, v in vals:
                env[i] = v
        live = fn.live[to]
        for i in [i for i in env if i not in live and i >= 0]:
            del env[i]
        st.prev = frm

    def block(self, st, b):
        """execute a block; returns [(succ, state)]"""
        fn = self.cur
        B = fn.blocks[b]
        states = [st]
        for ins in B:
            op = ins["op"]
            if op == "phi":
                continue
            self.stats["steps"] += 1
            if op == "br":
                out = []
                ss = ins["s"]
                if len(ss) == 1:
                    for s in states:
                        self.edge(s, b, ss[0]); out.append((ss[0], s))
                    return out
                for s in states:
                    for taken, s2 in self.branch(s, self.val(s, ins["v"]), ins):
                        t = ss[0] if taken else ss[1]
                        s2.trace = (s2.trace, self.loc(ins), taken)
                        self.edge(s2, b, t); out.append((t, s2))
                return out
            if op == "switch":
                out = []
                for s in states:
                    out.extend(self.switch(s, ins, b))
                return out
            if op == "ret":
                for s in states:
                    v = self.val(s, ins["a"][0]) if ins["a"] else None
                    if self.inlined:
                        self.inlined[-1][1].append((s, v))
                    else:
                        self.exits.append(self.mkexit(s, v, ins))
                return []
            if op == "unreachable":
                return []
            nxt = []
            h = getattr(self, "i_" + op, None)
            if h is None:
                raise Broken("instruction %s" % op)
            for s in states:
                r = h(s, ins)
                if r is None:
                    nxt.append(s)
                else:
                    nxt.extend(r)
            states = nxt
            if len(states) > 1:
                states = self.merge(states, (b, ins["i"])) if len(states) > self.MAXB else states
            if not states:
                return []
        return []

    # ------------------------------------------------------------------ conditions
    def cond_of(self, v):
        """condition meant by an i1 value; ('le'|'eq'|'ne', L)"""
        a = single(v)
        if a is not None and a.kind == "CMP":
            return a.args
        if len(v[1]) == 1 and v[0] == 1 and v[1][0][1] == -1:
            a = ATOMS[v[1][0][0]]
            if a.kind == "CMP":
                return negate(a.args)
        return ("ne", v)

    def branch(self, st, v, ins):
        v = st.norm(v)
        if not v[1]:
            return [(bool(v[0] & 1), st)]
        a = single(v)
        if a is not None and a.kind == "U":
            self.finding("uninit", st, ins, "branch on an uninitialised value")
        c = self.cond_of(v)
        if any(ATOMS[i].kind == "U" for i, _ in c[1][1]):
            self.finding("undecided", st, ins, "a decision is made on an uninitialised value")
        r = st.ev(c)
        if r is not None:
            return [(r, st)]
        out = []
        s2 = st.copy()
        if s2.assume(c):
            out.append((True, s2))
        if st.assume(negate(c)):
            out.append((False, st))
        return out

    def mkcmp(self, st, c):
        r = st.ev(c)
        if r is not None:
            return C(1 if r else 0)
        p, L = c
        L = st.norm(L)
        if p in ("eq", "ne") and L[1] and L[1][0][1] < 0:
            L = neg(L)
        if p == "ne":
            return sub(ONE, V(mk("CMP", ("eq", L), 0, 1)))
        if p == "le" and L[1][0][1] < 0:
            # canonical orientation so that a test and its negation share one atom
            n = negate(("le", L))
            return sub(ONE, V(mk("CMP", n, 0, 1)))
        return V(mk("CMP", (p, L), 0, 1))

    def i_icmp(self, st, ins):
        x = st.norm(self.val(st, ins["a"][0])); y = st.norm(self.val(st, ins["a"][1]))
        p = ins["pred"]
        w = 64 if ins["ot"] == "ptr" else int(ins["ot"][1:])
        if p in ("eq", "ne"):
            # comparison of a boolean with zero
            if not y[1] and y[0] in (0, 1):
                a = x
                if len(a[1]) == 1 and ATOMS[a[1][0][0]].kind == "CMP" and ((a[0], a[1][0][1]) in ((0, 1), (1, -1))):
                    want = (p == "ne") == (y[0] == 0)
                    st.env[ins["i"]] = a if want else sub(ONE, a)
                    return None
            if not y[1] or not x[1]:
                k, o = (y, x) if not y[1] else (x, y)
                if not o[1]:
                    k, o = C(k[0] & ((1 << w) - 1)), C(o[0] & ((1 << w) - 1))
                elif w < 64:
                    lo, hi = st.lb(o), st.ub(o)
                    if k[0] < 0 and lo >= 0:
                        k = C(k[0] + (1 << w))
                    elif k[0] > hi and k[0] >= (1 << (w - 1)):
                        k = C(k[0] - (1 << w))
                elif k[0] < 0 and st.lb(o) >= 0 and w == 64:
                    k = C(k[0] + (1 << w))
                if w == 64 and k[0] >= 1 << 63 and o[1] and st.ub(o) < k[0]:
                    # 64-bit quantities count as below 2^63, but a marker such as ~0 may still be recorded
                    v = V(mk("OP", ("eqbig", o, k[0]), 0, 1))
                    st.env[ins["i"]] = v if p == "eq" else sub(ONE, v)
                    return None
                x, y = o, k
            st.env[ins["i"]] = self.mkcmp(st, (p, sub(x, y)))
            return None
        if p[0] == "u":
            out = []
            for s1, ux in self.U(st, x, w):
                for s2, uy in self.U(s1, y, w):
                    s2.env[ins["i"]] = self.mkcmp(s2, self.order(p[1:], ux, uy))
                    out.append(s2)
            return out
        sxx, syy = self.sx(st, x, w), self.sx(st, y, w)
        st.env[ins["i"]] = self.mkcmp(st, self.order(p[1:], sxx, syy))

    def order(self, p, x, y):
        if p == "lt":
            return ("le", addc(sub(x, y), 1))
        if p == "le":
            return ("le", sub(x, y))
        if p == "gt":
            return ("le", addc(sub(y, x), 1))
        return ("le", sub(y, x))

    def switch(self, st, ins, b):
        v = st.norm(self.val(st, ins["v"]))
        w = int(ins["ot"][1:])
        out = []
        if not v[1]:
            m = (1 << w) - 1
            for k, t in ins["cases"]:
                if (int(k) & m) == (v[0] & m):
                    self.edge(st, b, t); return [(t, st)]
            self.edge(st, b, ins["def"]); return [(ins["def"], st)]
        a = single(v)
        if a is not None and a.kind == "U":
            self.finding("uninit", st, ins, "switch on an uninitialised value")
        lo, hi = st.lb(v), st.ub(v)
        bytarget = {}
        for k, t in ins["cases"]:
            k = int(k)
            if k < 0 and lo >= 0:
                k += 1 << w
            if k < lo or k > hi:
                continue
            s2 = st.copy()
            if s2.assume(("eq", addc(v, -k))):
                s2.trace = (s2.trace, self.loc(ins), k)
                self.edge(s2, b, t); out.append((t, s2))
        ok = True
        for k, t in ins["cases"]:
            k = int(k)
            if k < 0 and lo >= 0:
                k += 1 << w
            if not st.assume(("ne", addc(v, -k))):
                ok = False; break
        if ok:
            st.trace = (st.trace, self.loc(ins), "default")
            self.edge(st, b, ins["def"]); out.append((ins["def"], st))
        return out

    # ------------------------------------------------------------------ instructions
    def i_alloca(self, st, ins):
        if "size" in ins:
            sz = C(ins["size"])
        else:
            sz = scale(self.val(st, ins["n"]), ins["elt"])
        a = mk("A", (self.ctx, ins["i"], ins.get("name", ""), self.stamp), 4096, INF, True)
        st.env[ins["i"]] = V(a)
        st.mem[a.id] = Obj(("u",)); st.own.add(a.id)
        self.tables[a.id] = sz
        if "sty" in ins:
            self.recs[a.id] = self.p.di_of(ins["sty"])[0]

    def i_getelementptr(self, st, ins):
        p = self.val(st, ins["p"])
        r = addc(p, ins["off"]) if ins["off"] else p
        for o, s in ins["idx"]:
            r = add(r, scale(self.val(st, o), s))
        r = st.norm(r)
        st.env[ins["i"]] = r
        if ins["idx"] and p[1]:
            pb = single(p)
            if pb is not None and pb.kind in ("M", "P", "F", "D", "J", "W"):
                st.seen[-pb.id] = True        # pointer arithmetic: not null
        if "tag" in ins:
            t = self.p.tag(ins["tag"])
            if t[1] and t[1].startswith("[]") and t[2] > 1:
                self.reg[r] = (r, t[2])
        elif r not in self.reg:
            q = self.reg.get(p)
            if q is not None and ins["ety"] in ("i8",) and (ins["idx"] or ins["off"]):
                self.reg[r] = q

    def ptrtag(self, ins, o):
        if o[0] == "v":
            d = self.cur.ins.get(o[1])
            if d is not None and d["op"] == "getelementptr" and "tag" in d and not (d["idx"] and False):
                return self.p.tag(d["tag"])
        elif o[0] == "g":
            g = self.p.globals.get(o[1])
            if g is not None:
                d = self.p.dis.get(g.get("ty"))
                if d is not None and not d["union"]:
                    for m in d["members"]:
                        if m[1] == o[2]:
                            return ("%s.%s" % (g["ty"], m[0]), m[3], m[2])
                elif o[2] == 0:
                    return (g["name"], g.get("ty"), g["size"])
        return (None, None, 0)

    def i_load(self, st, ins):
        addr = self.val(st, ins["a"][0])
        if not self.deref(st, addr, ins, "read"):
            return []
        tag, ty, _ = self.ptrtag(ins, ins["a"][0])
        if self.watch:
            self.watch(self, st, ins, st.norm(addr), ins["sz"], "r", tag)
        v = self.read(st, addr, ins["sz"], ins["t"] == "ptr", tag, ty)
        if ins["t"] == "i1":
            v = self.tr(st, v, 1)
        st.env[ins["i"]] = v

    def i_store(self, st, ins):
        addr = self.val(st, ins["a"][1])
        v = self.val(st, ins["a"][0])
        if not self.deref(st, addr, ins, "write"):
            return []
        tag, ty, _ = self.ptrtag(ins, ins["a"][1])
        if self.watch:
            self.watch(self, st, ins, st.norm(addr), ins["sz"], "w", tag, v)
        if tag is None or ins["a"][1][0] == "g" or self.reg.get(st.norm(addr)) is not None:
            self.wevent(st, addr, C(ins["sz"]), ins, "store")
        else:
            if self.onwrite is not None:
                self.onwrite(self, st, st.norm(addr), C(ins["sz"]), ins, "store")
            # a member of a structure: outside its block only where both are numbers
            b, off = split(st.norm(addr))
            h = st.heap.get(b) if b is not None else None
            if h is not None and h[1] is not None and not off[1]:
                cap = st.norm(h[1])
                if not cap[1] and cap[0] < off[0] + ins["sz"]:
                    self.bound(st, off, addc(off, ins["sz"]), cap, ins, "store", None, (), V(ATOMS[b]))
        self.write(st, addr, ins["sz"], v)

    def wevent(self, st, addr, ln, ins, what, loc=None, chain=()):
        """a write of ln bytes at addr: check or record the bound obligation"""
        addr = st.norm(addr); ln = st.norm(ln)
        b, off = split(addr)
        if b is None:
            return
        a = ATOMS[b]
        if self.onwrite is not None:
            self.onwrite(self, st, addr, ln, ins, what)
        reg = self.reg.get(addr)
        if reg is not None and (a.kind != "A" or True):
            start, cap = reg
            lo = sub(addr, start)
            self.bound(st, lo, add(lo, ln), C(cap), ins, what, loc, chain, start)
            return
        if a.kind == "A":
            self.bound(st, off, add(off, ln), self.tables.get(b), ins, what, loc, chain, V(a))
        elif a.kind == "H":
            h = st.heap.get(b)
            if h is not None:
                self.bound(st, off, add(off, ln), h[1], ins, what, loc, chain, V(a))
        elif a.kind == "G":
            g = self.p.globals.get(a.args[0])
            if g is not None and g["size"]:
                self.bound(st, off, add(off, ln), C(g["size"]), ins, what, loc, chain, V(a))
            if g is not None and g["const"]:
                self.finding("constwrite", st, ins, "%s into constant %s" % (what, a.args[0]), loc=loc, chain=chain)
        elif a.inp:
            # obligation on whoever owns the buffer: lift, with bounds expressed over inputs
            if not off[1] and not ln[1] and a.kind == "P" and off[0] >= 0 and a.tag:
                sz = self.p.pointee_size(a.tag)
                if sz and off[0] + ln[0] <= sz:
                    return
            lo, his = self.bounds_inp(st, off, add(off, ln))
            if lo is None:
                lo = ()
            self.emit(st, "write", (V(a),) + his, ins, (what, lo, self.hard), loc=loc, chain=chain)

    def bounds_inp(self, st, lo, hi):
        """upper bounds of hi over inputs only (tuple of forms, possibly empty = unbounded)"""
        res = []
        seen = set()
        self.hard = False       # is some bound attained as far as one can tell (at most one weakening)?
        def go(L, d):
            L = st.norm(L)
            if L in seen or len(res) > 3:
                return
            seen.add(L)
            bad = [(i, c) for i, c in L[1] if not ATOMS[i].inp]
            if not bad:
                if L not in res:
                    res.append(L)
                if d >= 3:
                    self.hard = True
                if d == 4 and L[1]:
                    # what the value itself is known not to exceed
                    for f in st.ineq:
                        fd = dict(f[1])
                        if len(fd) > len(L[1]) and all(fd.get(i) == c for i, c in L[1]):
                            go(neg(sub(f, L)), d - 1)
                return
            if d == 0:
                return
            # interval elimination
            k = L[0]; rest = []
            okk = True
            for i, c in L[1]:
                if ATOMS[i].inp:
                    rest.append((i, c)); continue
                blo, bhi = st.lohi(i)
                x = bhi if c > 0 else blo
                if abs(x) > 1 << 40:
                    okk = False; break
                k += c * x
            if okk:
                N = (k, tuple(rest))
                if N not in res:
                    res.append(N)
                if len(bad) + 4 - d <= 1:
                    self.hard = True
            i, c = bad[0]
            for f in st.ineq:
                fc = dict(f[1]).get(i)
                if fc is not None and (fc > 0) == (c > 0) and c % fc == 0:
                    go(sub(L, scale(f, c // fc)), d - 1)
        go(hi, 4)
        lomin = st.lb(lo)
        return (lomin if lomin not in (INF, -INF) and (self.clean(lo) or st.ub(lo) < 0) else None), tuple(sorted(res))

    def bound(self, st, lo, hi, cap, ins, what, loc, chain, root):
        if cap is None:
            return
        self.stats["bounds"] = self.stats.get("bounds", 0) + 1
        if not st.le0(sub(hi, cap)):
            ex = self.exceeds(st, hi, cap)
            if ex is not None:
                self.finding("oob", st, ins, "%s may reach byte %s of a %s-byte buffer (%s)" % (what, self.lim(st, ex), show(cap), self.bufname(root)), loc=loc, chain=chain,
                         extra=(hi, cap))
        elif st.ub(lo) < 0 or (self.clean(lo) and st.lb(lo) < 0 and st.lb(lo) > -INF and not st.le0(neg(lo))):
            self.finding("oob", st, ins, "%s may start %s bytes before a buffer (%s)" % (what, -st.lb(lo), self.bufname(root)), loc=loc, chain=chain)

    # A bound is reported as exceeded only in terms of quantities the analysis knows exactly: arguments, image and
    # memory contents, string lengths and expressions of those.  Values it had to widen, join or invent prove nothing.
    CLEAN = {}
    RECORDED = ("sqfs_inode", "sqfs_dir_entry", "sqfs_md_cursor")
    def known(self, L):
        for i in [i for i, _ in L[1]]:
            if ATOMS[i].kind not in ("P", "M", "G", "A", "H") or ATOMS[i].kind == "M" and not self.known(ATOMS[i].args[0]):
                return False
        return True

    def cleana(self, i):
        r = self.CLEAN.get(i)
        if r is None:
            a = ATOMS[i]
            if a.kind in ("P", "G"):
                r = True
            elif a.kind == "SL":
                r = all(self.clean(x) for x in a.args if is_lin(x))
            elif a.kind == "M":
                # recorded data; the library's own bookkeeping obeys invariants that are not modelled here
                s = (a.tag or "").split(".")[0]
                r = (s == "" or s.startswith("squashfs_") or s in self.RECORDED or s.startswith("[]")) and self.known(a.args[0])
            elif a.kind == "D":
                r = ATOMS[a.args[0]].kind == "F"
            elif a.kind in ("OP", "CMP"):
                r = all(self.clean(x) for x in a.args if is_lin(x))
            else:
                r = False
            self.CLEAN[i] = r
        return r

    def clean(self, L):
        if abs(L[0]) > 1 << 40:
            return False
        return all(self.cleana(i) for i, _ in L[1])

    def cleanbounds(self, st, hi):
        """upper bounds of hi in exactly known terms"""
        res = []; seen = set()
        def go(L, d):
            L = st.norm(L)
            if L in seen or len(res) > 5:
                return
            seen.add(L)
            bad = [(i, c) for i, c in L[1] if not self.cleana(i)]
            if not bad:
                if self.clean(L):
                    res.append(L)
                    if d >= 3:
                        self.hard = True
                return
            if d == 0:
                return
            i, c = bad[0]
            lo, h = st.lohi(i)
            x = h if c > 0 else lo
            if abs(x) < 1 << 40 and ATOMS[i].kind in ("J", "W"):
                go((L[0] + c * x, tuple(y for y in L[1] if y[0] != i)), d - 1)
            for f in st.ineq:
                fc = dict(f[1]).get(i)
                if fc is not None and (fc > 0) == (c > 0) and c % fc == 0:
                    go(sub(L, scale(f, c // fc)), d - 1)
        go(hi, 4)
        return res

    def exceeds(self, st, hi, cap):
        if st.lossy:
            return None
        if abs(hi[0]) < 1 << 40 and 0 < st.lb(sub(hi, cap)) < 1 << 40:
            return hi               # exceeded whatever the quantities are
        self.hard = False
        r = self.cleanbounds(st, hi)
        if not r or not self.hard or not self.clean(cap) or any(st.le0(sub(x, cap)) for x in r):
            return None
        return r[0]

    def lim(self, st, hi):
        u = st.ub(hi)
        return str(u) if u != INF else "unbounded " + show(hi)

    def bufname(self, root):
        b, off = split(root)
        a = ATOMS[b] if b is not None else None
        if a is None:
            return "?"
        if a.kind == "A":
            return "local " + (a.args[2] or "buffer")
        if a.kind == "G":
            return a.args[0]
        if a.kind == "H":
            return "heap block"
        return show(root)

    def _bin(self, st, ins):
        return st.norm(self.val(st, ins["a"][0])), st.norm(self.val(st, ins["a"][1])), int(ins["t"][1:])

    def i_add(self, st, ins):
        x, y, w = self._bin(st, ins)
        st.env[ins["i"]] = self.wrapc(add(x, y), w)
    def wrapc(self, r, w):
        if not r[1]:
            m = (1 << w) - 1
            v = r[0]
            if v > m or v < -(1 << (w - 1)):
                v &= m
            return C(v)
        return r
    def i_sub(self, st, ins):
        x, y, w = self._bin(st, ins)
        st.env[ins["i"]] = self.wrapc(sub(x, y), w)
    def i_mul(self, st, ins):
        x, y, w = self._bin(st, ins)
        if not x[1]:
            x, y = y, x
        if not y[1]:
            k = y[0]
            st.env[ins["i"]] = self.wrapc(scale(x, k), w)
            return
        if x > y:
            x, y = y, x
        lo = 0 if st.lb(x) >= 0 and st.lb(y) >= 0 else -INF
        st.env[ins["i"]] = V(mk("OP", ("mul", x, y), lo))
    def i_shl(self, st, ins):
        x, y, w = self._bin(st, ins)
        if not y[1]:
            st.env[ins["i"]] = self.wrapc(scale(x, 1 << y[0]), w)
        else:
            st.env[ins["i"]] = V(mk("OP", ("shl", x, y)))
    def i_lshr(self, st, ins):
        x, y, w = self._bin(st, ins)
        x = self.zx(st, x, w) if w < 64 else x
        if not y[1]:
            if not x[1]:
                st.env[ins["i"]] = C((x[0] & ((1 << w) - 1)) >> y[0]); return
            hi = st.ub(x)
            h = (int(hi) >> y[0]) if hi != INF else ((1 << (w - y[0])) - 1)
            st.env[ins["i"]] = V(mk("OP", ("shr", x, y[0]), 0, h))
        else:
            st.env[ins["i"]] = V(mk("OP", ("shrv", x, y), 0))
    def i_ashr(self, st, ins):
        x, y, w = self._bin(st, ins)
        if not x[1] and not y[1]:
            st.env[ins["i"]] = C(x[0] >> y[0]); return
        st.env[ins["i"]] = V(mk("OP", ("ashr", x, y)))
    def i_udiv(self, st, ins):
        x, y, w = self._bin(st, ins)
        self._div(st, ins, x, y, w)
    def _div(self, st, ins, x, y, w):
        if not x[1] and not y[1] and y[0]:
            st.env[ins["i"]] = C(int(x[0] // y[0])); return
        q = mk("OP", ("div", x, y), 0 if st.lb(x) >= 0 or ins["op"] == "udiv" else -INF)
        st.env[ins["i"]] = V(q)
        if not y[1] and y[0] > 0 and st.lb(x) >= 0:
            k = y[0]
            st.add_le(sub(scale(V(q), k), x))
            st.add_le(addc(sub(x, scale(V(q), k)), -(k - 1)))
    def i_sdiv(self, st, ins):
        x, y, w = self._bin(st, ins)
        self._div(st, ins, x, y, w)
    def i_urem(self, st, ins):
        x, y, w = self._bin(st, ins)
        if not x[1] and not y[1] and y[0]:
            st.env[ins["i"]] = C(x[0] % y[0]); return
        hi = INF
        if not y[1] and y[0] > 0:
            hi = y[0] - 1
            if x[1] and st.lb(x) >= 0 and st.ub(x) <= hi:
                st.env[ins["i"]] = x; return
        r = mk("OP", ("rem", x, y), 0, hi)
        st.env[ins["i"]] = V(r)
        if st.lb(x) >= 0:
            st.add_le(sub(V(r), x))
        if y[1]:
            st.add_le(addc(sub(V(r), y), 1))
    def i_srem(self, st, ins):
        x, y, w = self._bin(st, ins)
        if not x[1] and not y[1] and y[0]:
            st.env[ins["i"]] = C(x[0] % y[0]); return
        r = mk("OP", ("rem", x, y), 0 if st.lb(x) >= 0 else -INF, (y[0] - 1) if not y[1] and y[0] > 0 else INF)
        st.env[ins["i"]] = V(r)
    def i_and(self, st, ins):
        x, y, w = self._bin(st, ins)
        if not x[1]:
            x, y = y, x
        if not y[1]:
            k = y[0] & ((1 << w) - 1)
            if not x[1]:
                v = x[0] & k
                if w == 1:
                    v &= 1
                elif v >= 1 << (w - 1):
                    v -= 1 << w
                st.env[ins["i"]] = C(v); return
            if w == 1:
                st.env[ins["i"]] = x if k & 1 else ZERO; return
            x = self.zx(st, x, w) if w < 64 else x
            hi = st.ub(x)
            if hi != INF and st.lb(x) >= 0:
                k &= (1 << int(hi).bit_length()) - 1
                if k == (1 << int(hi).bit_length()) - 1:
                    st.env[ins["i"]] = x; return
            if k == 0:
                st.env[ins["i"]] = ZERO; return
            a = single(x)
            if a is not None and a.kind == "OP" and a.args[0] == "and" and not isinstance(a.args[2], tuple):
                x = a.args[1]; k &= a.args[2]
            st.env[ins["i"]] = V(mk("OP", ("and", x, k), 0, k))
            return
        if w == 1:
            st.env[ins["i"]] = V(mk("OP", ("land", x, y), 0, 1)); return
        st.env[ins["i"]] = V(mk("OP", ("and", min(x, y), max(x, y))))
    def i_or(self, st, ins):
        x, y, w = self._bin(st, ins)
        if not x[1]:
            x, y = y, x
        if not y[1]:
            if not x[1]:
                st.env[ins["i"]] = C(x[0] | y[0]); return
            if y[0] == 0:
                st.env[ins["i"]] = x; return
            if w == 1:
                st.env[ins["i"]] = ONE if y[0] & 1 else x; return
        lo = 0 if st.lb(x) >= 0 and st.lb(y) >= 0 else -INF
        hi = INF
        if lo == 0 and st.ub(x) != INF and st.ub(y) != INF:
            hi = (1 << max(int(st.ub(x)).bit_length(), int(st.ub(y)).bit_length())) - 1
        if w == 1:
            lo, hi = 0, 1
        st.env[ins["i"]] = V(mk("OP", ("or", min(x, y), max(x, y)), lo, hi))
        if lo == 0 and w > 1:
            r = st.env[ins["i"]]
            st.add_le(sub(x, r)); st.add_le(sub(y, r))
    def i_xor(self, st, ins):
        x, y, w = self._bin(st, ins)
        if not x[1]:
            x, y = y, x
        if not y[1]:
            if not x[1]:
                v = (x[0] ^ y[0])
                st.env[ins["i"]] = C(v & 1 if w == 1 else v); return
            if w == 1:
                st.env[ins["i"]] = sub(ONE, x) if y[0] & 1 else x; return
        st.env[ins["i"]] = V(mk("OP", ("xor", min(x, y), max(x, y)), 0 if w == 1 else -INF, 1 if w == 1 else INF))
    def i_zext(self, st, ins):
        x = self.val(st, ins["a"][0])
        st.env[ins["i"]] = self.zx(st, x, int(ins["ot"][1:]))
    def i_sext(self, st, ins):
        x = self.val(st, ins["a"][0])
        if ins["ot"] == "i1":
            st.env[ins["i"]] = neg(st.norm(x)); return
        st.env[ins["i"]] = self.sx(st, x, int(ins["ot"][1:]))
    def i_trunc(self, st, ins):
        st.env[ins["i"]] = self.tr(st, self.val(st, ins["a"][0]), int(ins["t"][1:]))
    def i_ptrtoint(self, st, ins):
        st.env[ins["i"]] = self.val(st, ins["a"][0])
    i_inttoptr = i_ptrtoint
    i_bitcast = i_ptrtoint
    i_freeze = i_ptrtoint
    def i_extractvalue(self, st, ins):
        st.env[ins["i"]] = self.fresh(ins)
    def i_select(self, st, ins):
        out = []
        for taken, s in self.branch(st, self.val(st, ins["a"][0]), ins):
            s.env[ins["i"]] = self.val(s, ins["a"][1] if taken else ins["a"][2])
            out.append(s)
        return out
    def i_va_arg(self, st, ins):
        st.env[ins["i"]] = self.fresh(ins)

    # ------------------------------------------------------------------ calls
    def i_call(self, st, ins):
        ce = ins["callee"]
        self.stats["calls"] += 1
        if ce[0] == "f":
            return self.call_named(st, ins, ce[1])
        if ce[0] == "x":
            return None
        f = st.norm(self.val(st, ce))
        a = single(f)
        if a is not None and a.kind == "FN":
            return self.call_named(st, ins, a.args[0])
        if not f[1]:
            self.finding("null", st, ins, "call through a null pointer")
            return []
        names = self.p.fieldtargets(a.tag, ins) if a is not None and a.tag else self.p.targets(ins)
        if names and a is not None and a.kind in ("M", "D", "F", "J", "W"):
            out = []
            for n in names:
                s2 = st.copy()
                r = self.call_named(s2, ins, n)
                out.extend([s2] if r is None else r)
            return out
        # callback supplied by the user
        return self.models.callback(self, st, ins, f)

    def call_named(self, st, ins, name):
        fn = self.p.fns.get(name)
        args = [st.norm(self.val(st, o)) for o in ins["a"]]
        if name.startswith("llvm."):
            return self.models.intrinsic(self, st, ins, name, args)
        if fn is None or fn.decl or name in self.opaque:
            return self.models.extern(self, st, ins, name, args)
        consts = []
        for i, x in enumerate(args):
            a = single(x)
            if a is not None and a.kind == "FN" and i < len(fn.params):
                consts.append((i, a.args[0]))
        if self.inline and len(self.inlined) < self.inline and name != self.cur.name and not any(name == c[0] for c in self.inlined):
            return self.call_inline(st, ins, fn, args)
        summ = self.summary(name, tuple(consts))
        return self.apply(st, ins, fn, summ, args)

    def call_inline(self, st, ins, fn, args):
        """the callee's body in the caller's own state; the caller's values stay reachable under negative names"""
        saved = self.cur, self.ctx, self.stamp, self.args
        base = -1000000 * (len(self.inlined) + 1)
        up = st.prev, dict(st.entry)
        s0 = st.copy()
        s0.env = {(i if i < 0 else base - i): v for i, v in s0.env.items()}
        s0.prev = None; s0.entry = {}
        ctx = ("in", fn.name, self.ctx, ins["i"], self.stamp)
        got = []
        self.inlined.append((fn.name, got))
        self.cur = fn; self.ctx = ctx; self.stamp = (); self.args = list(args) + [V(a) for a in self.ptypes(fn)[len(args):]]
        try:
            self.run(None, {0: [s0]})
        finally:
            self.inlined.pop()
            self.cur, self.ctx, self.stamp, self.args = saved
        out = []
        for s, v in got:
            v = s.norm(v) if v is not None else None
            s.env = {(base - i if i <= base else i): x for i, x in s.env.items() if i < 0}
            s.prev = up[0]; s.entry = dict(up[1])
            for a in [a for a in s.mem if ATOMS[a].kind == "A" and ATOMS[a].args[0] == ctx]:
                del s.mem[a]; s.own.discard(a)
            if v is not None and ins["t"] != "void":
                s.env[ins["i"]] = v
            out.append(s)
        return out

    def apply(self, st, ins, fn, summ, args):
        sb = Subst(self, st, ins, fn, args)
        # events first: they happen during the call, in the caller's state
        for vs in list(summ.events.values()):
            for ev in vs:
                self.lift(st, ins, fn, ev, sb)
        if st.lossy == "dead":
            return []
        out = []
        n = len(summ.exits)
        for k, x in enumerate(summ.exits):
            s = st.copy() if k < n - 1 else st.copy()
            if self.apply_exit(s, st, ins, fn, x, sb, k):
                if self.peel and CUT in s.marks:
                    self.cut(s, ins)
                else:
                    out.append(s)
        return out

    def cut(self, st, ins):
        """a path on which some loop goes on beyond the rounds looked at: only that it exists is known"""
        st = st.copy()
        st.marks = frozenset([CUT]); st.mem = {}; st.own = set(); st.heap = {}; st.freed = {}; st.res = {}; st.locks = st.rel = (); st.faults = frozenset()
        st.alts = ()
        self.exits.append(self.mkexit(st, None, ins))

    def facts_into(self, s, sb, bnd, ineq, neq):
        for i, (lo, hi) in bnd.items():
            a = ATOMS[i]
            v = sb.atom(a)
            if lo != -INF and lo > a.lo and not s.add_le(sub(C(int(lo)), v)):
                return False
            if hi != INF and hi < a.hi and not s.add_le(sub(v, C(int(hi)))):
                return False
            if not v[1]:
                if v[0] < lo or v[0] > hi:
                    return False
        for f in ineq:
            if not s.add_le(sb.lin(f)):
                return False
        for f in neq:
            g = sb.lin(f)
            if s.ev(("eq", g)) is True or not s.add_ne(g):
                return False
        return True

    def alts_into(self, s, sb, alts):
        """the alternatives a callee's exit leaves open, in the caller: False if none is possible"""
        for grp in alts:
            left = []
            for b, q, n in grp:
                s2 = s.copy()
                if self.facts_into(s2, sb, dict(b), q, n):
                    left.append((b, q, n))
            if not left:
                return False
            if len(left) == 1:
                b, q, n = left[0]
                self.facts_into(s, sb, dict(b), q, n)
            elif len(s.alts) < 3:
                out = []
                for b, q, n in left:
                    bb = []; qq = set()
                    for i, (lo, hi) in b:
                        v = sb.atom(ATOMS[i]); a = single(v)
                        if a is not None:
                            bb.append((a.id, (lo, hi)))
                        elif v[1]:
                            if lo != -INF:
                                qq.add(sub(C(int(lo)), v))
                            if hi != INF:
                                qq.add(sub(v, C(int(hi))))
                    out.append((tuple(sorted(bb)), tuple(sorted(qq | {sb.lin(f) for f in q if sb.lin(f)[1]})), tuple(sorted({sb.lin(f) for f in n if sb.lin(f)[1]}))))
                if all(x[0] or x[1] or x[2] for x in out):
                    s.alts = s.alts + (tuple(sorted(set(out))),)
        return True

    def feasible(self, st, sb, ev):
        s = st.copy()
        return self.facts_into(s, sb, ev.bnd, ev.ineq, ev.neq), s

    def lift(self, st, ins, fn, ev, sb):
        k = ev.kind
        chain = ((self.cur.name, self.loc(ins)[1]),) + ev.chain
        if len(chain) > 12:
            return
        if k in ("acc", "pay"):
            held = self.held_after(st, sb, ev)
            L = sb.lin(ev.lins[0]) if ev.lins else None
            key = (k, ev.loc, (L,) if ev.lins else (), ev.extra, held)
            if key not in self.events:
                self.events[key] = [Event(k, (L,) if ev.lins else (), ev.extra, held, {}, (), (), ev.loc, chain)]
            return
        if k == "deref":
            # nothing to decide for an address already known to be sound here
            L = st.norm(sb.lin(ev.lins[0]))
            b, _ = split(L)
            if b is not None:
                a = ATOMS[b]
                if b in st.seen and a.kind != "H" and not st.freed:
                    return
                if a.kind in ("A", "G", "FN") and not st.freed:
                    return
                if a.kind == "H":
                    hh = st.heap.get(b)
                    if hh is None or hh[0] == "live":
                        return
                if a.kind in ("F", "W", "J", "D") and st.lohi(b)[1] != 0 and not st.freed:
                    return
        fk = (tuple(ev.bnd.items()), ev.ineq, ev.neq)
        if not fk[0] and not fk[1] and not fk[2]:
            s = st.copy(); ok = True
        else:
            r = sb.feas.get(fk)
            if r is None:
                ok, s = self.feasible(st, sb, ev)
                sb.feas[fk] = (ok, s)
            else:
                ok, s = r
        if not ok:
            return
        s.seen = dict(st.seen); s.locks = st.locks
        if k == "deref":
            ok = self.deref(s, sb.lin(ev.lins[0]), ins, ev.extra, loc=ev.loc, chain=chain)
            if not ev.bnd and not ev.ineq and not ev.neq:
                st.seen.update(s.seen)
                if not ok:
                    st.lossy = "dead"
        elif k == "lock":
            L = s.norm(sb.lin(ev.lins[0]))
            s.locks = self.held_after(st, sb, ev)
            self.lock_event(s, L, ins, ev.loc, chain)
        elif k == "write":
            root = s.norm(sb.lin(ev.lins[0]))
            his = tuple(s.norm(sb.lin(x)) for x in ev.lins[1:])
            self.lift_write(s, root, his, ev, ins, chain)
        elif k == "free":
            pass
        else:
            if k == "callback":
                s.locks = self.held_after(st, sb, ev)
            h = self.models.lift.get(k)
            if h:
                h(self, s, ins, ev, sb, chain)
            else:
                self.emit(s, k, tuple(s.norm(sb.lin(x)) for x in ev.lins), ins, ev.extra, loc=ev.loc, chain=chain)

    def lift_write(self, s, root, his, ev, ins, chain):
        what, lo, hard = ev.extra
        b, off = split(root)
        if b is None:
            return
        a = ATOMS[b]
        reg = self.reg.get(root)
        if reg is not None:
            d = sub(root, reg[0]); cap = C(reg[1]); r0 = reg[0]
        elif a.kind == "A":
            d = off; cap = self.tables.get(b); r0 = V(a)
        elif a.kind == "H":
            h = s.heap.get(b)
            if h is None:
                return
            d = off; cap = h[1]; r0 = V(a)
        elif a.kind == "G":
            g = self.p.globals.get(a.args[0])
            if g is None or not g["size"]:
                return
            d = off; cap = C(g["size"]); r0 = V(a)
        else:
            if not a.inp:
                return
            hs = []; hd = False
            for h in his:
                _, bs = self.bounds_inp(s, ZERO, add(off, h))
                hd = hd or self.hard
                hs.extend(x for x in bs if x not in hs)
            self.emit(s, "write", (V(a),) + tuple(sorted(hs)[:4]), ins, (what, () if lo == () else lo, hard and hd), loc=ev.loc, chain=chain)
            return
        if cap is None:
            return
        self.stats["bounds"] = self.stats.get("bounds", 0) + 1
        for h in his:
            if s.le0(sub(add(d, h), cap)):
                break
        else:
            exs = [self.exceeds(s, add(d, h), cap) for h in his]
            if hard and exs and all(x is not None for x in exs):
                self.finding("oob", s, ins, "%s may reach byte %s of a %s-byte buffer (%s)" % (what, self.lim(s, exs[0]), show(cap), self.bufname(r0)), loc=ev.loc, chain=chain)
            return
        if lo != () and not d[1] and d[0] + lo < 0:
            self.finding("oob", s, ins, "%s may start %d bytes before a buffer (%s)" % (what, -(d[0] + lo), self.bufname(r0)), loc=ev.loc, chain=chain)

    def held_after(self, st, sb, ev):
        h = st.locks
        if not ev.held:
            return h
        return h + tuple(st.norm(sb.lin(x)) for x in ev.held)

    def lock_event(self, st, L, ins, loc=None, chain=()):
        for h in st.locks:
            if h == L or st.is0(sub(h, L)):
                self.finding("relock", st, ins, "lock %s taken while already held" % show(L), loc=loc, chain=chain)
        self.emit(st, "lock", (L,), ins, None, loc=loc, chain=chain)

    def apply_exit(self, s, pre, ins, fn, x, sb, k):
        if not self.facts_into(s, sb, x.bnd, x.ineq, x.neq):
            return False
        if x.alts and not self.alts_into(s, sb, x.alts):
            return False
        for i in x.arith:
            pa = single(s.norm(sb.atom(ATOMS[i])))
            if pa is not None:
                s.seen[-pa.id] = True
        # heap
        for h, v in x.heap.items():
            nh = sb.atomid(h)
            s.heap[nh] = (v[0], sb.lin(v[1]) if v[1] is not None else None, v[2], v[3])
        # memory
        for b, o in x.mem.items():
            root = sb.atom(ATOMS[b])
            rb, roff = split(s.norm(root))
            if rb is None:
                if o.cells or o.ovl:
                    # write through null: reported as a deref by events; path is dead
                    return False
                continue
            a = ATOMS[b]
            if a.kind == "H":
                no = Obj(sb.kind(o.dflt))
                s.mem[rb] = no; s.own.add(rb)
                if o.dflt[0] == "E":
                    self.put_default_E(s, pre, rb, no, o.dflt, sb)
            for ov in o.ovl:
                off, ln, kd = ov
                addr = add(root, sb.lin(off))
                lnn = sb.lin(ln) if ln is not None else None
                if kd[0] == "E":
                    src = add(sb.lin(kd[1]), sub(sb.lin(off), sb.lin(kd[2])))
                    if lnn is not None and lnn[1]:
                        got = self.regions_of(pre, src, lnn) if self.peel and not pre.le0(lnn) and split(pre.norm(src))[0] is not None else ((), ())
                        if len(got[0]) == 1 and not got[1] and (got[0][0][2][0] == "E" or got[0][0][2][0] == "D" and ATOMS[got[0][0][2][1]].kind == "OP"):
                            self.put_regions(s, addr, *got)      # content of one known source
                            continue
                    if lnn is None or lnn[1]:
                        self.write_region(s, addr, lnn, ("D", mk("F", ("cpE", self.ctx, ins["i"], self.stamp, b, off)).id, split(addr)[1]))
                    else:
                        regs, cells = self.regions_of(pre, src, lnn)
                        self.put_regions(s, addr, regs, cells)
                else:
                    kk = sb.kind(kd)
                    if kk[0] == "D":
                        kk = ("D", kk[1], add(roff, kk[2]))
                    self.write_region(s, addr, lnn, kk)
            for off, (sz, v) in o.cells.items():
                if isinstance(off[0], str):
                    continue
                self.write(s, add(root, sb.lin(off)), sz, sb.lin(v))
        # frees of pre-existing memory
        for L, loc in x.freed.items():
            if not self.free(s, sb.lin(L), ins, loc=loc, chain=((self.cur.name, self.loc(ins)[1]),)):
                return False
        if fn.name in self.lost:
            self.lost.add(self.cur.name)
            self.untrack(s, [i for v in sb.args for i, _ in v[1]])
        # locks
        for L in x.rel:
            self.unlock(s, s.norm(sb.lin(L)), ins)
        for L in x.locks:
            s.locks = s.locks + (s.norm(sb.lin(L)),)
        for r, v in x.res.items():
            rr = sb.lin(r)
            s.res[rr] = (v[0],) + tuple(v[1:])
        s.faults = s.faults | x.faults
        if x.marks:
            if self.errmark and any(m[0] == "errno" for m in x.marks):
                s.marks = frozenset(m for m in s.marks if m[0] != "errno")
            s.marks = s.marks | frozenset((m[0],) + tuple(sb.lin(y) if is_lin(y) else y for y in m[1:]) for m in x.marks)
        s.lossy = s.lossy or x.lossy
        if x.ret is not None and ins["t"] != "void":
            s.env[ins["i"]] = s.norm(sb.lin(x.ret))
            if self.errtypes and fn.dity and fn.dity[0] in self.errtypes and self.errfilter(fn):
                v = s.env[ins["i"]]
                if s.ev(("eq", v)) is False:
                    s.faults = s.faults | frozenset(["err"])
        s.trace = (s.trace, self.loc(ins), "%s exits at line %s" % (fn.name, x.loc[1]))
        return True

    def put_default_E(self, s, pre, rb, no, kd, sb):
        src = add(sb.lin(kd[1]), sub(ZERO, sb.lin(kd[2])))
        # content of pre at src onward becomes the default of the new object
        b, off = split(pre.norm(src))
        if b is None:
            no.dflt = ("u",); return
        o = pre.mem.get(b) or Obj(default_kind(b))
        def sh(kind):
            return kind[:2] + (sub(kind[2], off),) if kind[0] in ("D", "E") else kind
        no.dflt = sh(o.dflt)
        no.ovl = tuple((sub(x[0], off), x[1], sh(x[2])) for x in o.ovl)
        for co, cv in o.cells.items():
            if not isinstance(co[0], str):
                no.cells[sub(co, off)] = cv

    # objects whose content is shared between threads and only stable while their own mutex is held:
    # struct -> (mutex field, pointer fields whose targets are protected, scalar fields)
    GUARDED = {"sqfs_cache": ("mutex", ("idxs", "buf"), ("next",))}

    def release_guarded(self, st, L, ins):
        for sn, (mf, pf, sf) in self.GUARDED.items():
            d = self.p.dis.get(sn)
            if d is None:
                continue
            off = {m[0]: (m[1], m[2]) for m in d["members"]}
            if mf not in off or any(x not in off for x in pf + sf):
                continue
            O = addc(L, -off[mf][0])
            if not any(("M", (addc(O, off[x][0]), 8)) in TERM_TABLE and TERM_TABLE[("M", (addc(O, off[x][0]), 8))].tag == "%s.%s" % (sn, x) for x in pf):
                continue
            gone = []; work = []
            bases = set()
            for x in pf:
                v = self.read(st, addc(O, off[x][0]), 8, True)
                b, bo = split(st.norm(v))
                if b is not None:
                    bases.add(b)
            for b in list(st.mem):
                a = ATOMS[b]
                if b in bases or (a.kind in ("M", "D", "OP", "RAW") and sub_atoms(b) & bases):
                    o = st.mem[b]
                    for co, cv in o.cells.items():
                        if not isinstance(co[0], str):
                            work.extend(i for i, _ in cv[1][1])
                    if b in bases:
                        n = st.wobj(b)
                        n.cells = {}
                        n.ovl = ((ZERO, None, ("D", mk("F", (self.ctx, ins["i"], self.stamp, "shared", b)).id, ZERO)),)
                    else:
                        del st.mem[b]; st.own.discard(b)
            seen = set()
            while work:
                i = work.pop()
                if i in seen:
                    continue
                seen.add(i)
                if ATOMS[i].kind == "H" and i in st.heap:
                    del st.heap[i]          # owned by the shared object from here on
                    o = st.mem.get(i)
                    if o is not None:
                        for co, cv in o.cells.items():
                            if not isinstance(co[0], str):
                                work.extend(j for j, _ in cv[1][1])
            for p in [p for p in st.freed if any(i in bases or sub_atoms(i) & bases for i, _ in p[1])]:
                del st.freed[p]
            for x in sf:
                self.write(st, addc(O, off[x][0]), off[x][1], V(mk("F", (self.ctx, ins["i"], self.stamp, "shared", x), 0)))

    def unlock(self, st, L, ins):
        self.release_guarded(st, L, ins)
        for n in range(len(st.locks) - 1, -1, -1):
            h = st.locks[n]
            if h == L or st.is0(sub(h, L)):
                st.locks = st.locks[:n] + st.locks[n + 1:]
                return
        st.rel = st.rel + (L,)

    def free(self, st, p, ins, loc=None, chain=()):
        p = st.norm(p)
        if not p[1]:
            return True
        b, off = split(p)
        if b is None:
            return True
        a = ATOMS[b]
        loc = loc or self.loc(ins)
        if self.onfree is not None:
            self.onfree(self, st, p, ins, loc, chain)
        if st.lohi(b)[1] == 0 and not off[1] and off[0] == 0:
            return True
        if a.kind == "H":
            h = st.heap.get(b)
            if h is not None:
                if h[0] == "freed":
                    self.finding("dfree", st, ins, "memory allocated at line %s is freed twice (first at line %s)" % (h[2][1][1], h[3][1]), loc=loc, chain=chain)
                    return False
                if off != ZERO:
                    self.finding("badfree", st, ins, "free of an interior pointer", loc=loc, chain=chain)
                    return False
                st.heap[b] = ("freed", h[1], h[2], loc)
            return True
        if a.kind in ("A", "G", "FN"):
            self.finding("badfree", st, ins, "free of memory that was never allocated (%s)" % self.bufname(p), loc=loc, chain=chain)
            return False
        if p in st.freed:
            self.finding("dfree", st, ins, "memory %s is freed twice (first at line %s)" % (show(p), st.freed[p][1]), loc=loc, chain=chain)
            return False
        if not a.inp:
            self.maybe_freed(st, a)
            self.lost.add(self.cur.name)
        st.freed[p] = loc
        return True

    def maybe_freed(self, st, a):
        """an element of unknown index was freed: the blocks its array may hold are no longer tracked"""
        only = None
        if a.kind == "F" and a.args and a.args[0] in ("may", "mix"):
            only = split(a.args[2])[0]
        work = []
        for b, o in st.mem.items():
            if only is not None and b != only:
                continue
            arr = ATOMS[b].kind == "H" and (b not in st.heap or st.heap[b][1] is None or st.heap[b][1][1])
            for co, cv in o.cells.items():
                if not isinstance(co[0], str) and (arr or co[1] or only is not None):
                    work.extend(i for i, _ in cv[1][1])
        while work:
            i = work.pop()
            if ATOMS[i].kind == "H" and i in st.heap and st.heap[i][0] == "live":
                del st.heap[i]
                o = st.mem.get(i)
                if o is not None:
                    for co, cv in o.cells.items():
                        if not isinstance(co[0], str):
                            work.extend(j for j, _ in cv[1][1])

    def untrack(self, st, work):
        """a callee freed blocks it found behind its arguments: what it may have found is no longer tracked"""
        seen = set(); first = set(work)
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            if i not in first and ATOMS[i].kind == "H" and i in st.heap and st.heap[i][0] == "live":
                del st.heap[i]
            o = st.mem.get(i)
            if o is not None:
                for co, cv in o.cells.items():
                    if not isinstance(co[0], str):
                        work.extend(j for j, _ in cv[1][1])

    # ------------------------------------------------------------------ exits
    def islocal(self, a):
        return a.kind == "A" and a.args[0] == self.ctx

    def mkexit(self, st, v, ins):
        x = Exit()
        x.ret = st.norm(v) if v is not None else None
        x.loc = self.loc(ins)
        x.locks = st.locks; x.rel = st.rel; x.res = st.res; x.faults = st.faults; x.trace = st.trace
        x.marks = st.marks; x.lossy = st.lossy
        al = []
        for grp in st.alts:
            g2 = tuple(sorted({(tuple(t for t in b if ATOMS[t[0]].inp), tuple(f for f in q if lin_inp(f)), tuple(f for f in n if lin_inp(f))) for b, q, n in grp}))
            if len(g2) > 1 and all(b or q or n for b, q, n in g2):
                al.append(g2)
        x.alts = tuple(al[:3])
        x.freed = st.freed
        # reachability from outputs
        roots = set()
        def addv(L, acc):
            for i, _ in L[1]:
                acc.append(i)
        work = []; late = []
        if x.ret is not None:
            addv(x.ret, work)
        mem = {}
        for b, o in st.mem.items():
            a = ATOMS[b]
            if a.kind in ("A", "H"):
                continue
            if not a.inp and a.kind in ("F", "J", "W", "D", "RAW", "U"):
                late.append(b)
                continue
            if o.cells or o.ovl:
                mem[b] = o
                for co, cv in o.cells.items():
                    if not isinstance(co[0], str):
                        addv(cv[1], work)
                        addv(co, work)
        for r, rv in st.res.items():
            addv(r, work)
        heap = {}
        seen = set()
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            a = ATOMS[i]
            if a.kind == "H" and i in st.heap:
                heap[i] = st.heap[i]
                o = st.mem.get(i)
                if o is not None:
                    mem[i] = o
                    for co, cv in o.cells.items():
                        if not isinstance(co[0], str):
                            addv(cv[1], work)
                    for ov in o.ovl:
                        if ov[2][0] == "E":
                            addv(ov[2][1], work)
            elif i in late:
                o = mem[i] = st.mem[i]
                for co, cv in o.cells.items():
                    if not isinstance(co[0], str):
                        addv(cv[1], work)
        held = set()
        work = []
        for b in late:
            if b not in mem:
                for co, cv in st.mem[b].cells.items():
                    if not isinstance(co[0], str):
                        addv(cv[1], work)
        while work:         # stored behind a pointer whose own place is not known: not decided
            i = work.pop()
            if i not in held:
                held.add(i)
                if ATOMS[i].kind == "H" and i in st.mem:
                    for co, cv in st.mem[i].cells.items():
                        if not isinstance(co[0], str):
                            addv(cv[1], work)
        for h, hv in st.heap.items():
            if h not in heap and hv[0] == "live" and h not in held:
                heap[h] = ("lost",) + tuple(hv[1:])
        x.heap = {h: v for h, v in heap.items() if v[0] != "freed" or h in seen}
        for h, v in x.heap.items():
            if v[0] == "lost" and not (len(v[2]) > 2 and v[2][2] == "lost"):
                self.leak(st, ins, h, v, x)
        x.heap = {h: v for h, v in x.heap.items() if v[0] != "lost"}
        x.mem = mem
        x.env = None
        x.arith = [-i for i in st.seen if i < 0 and (ATOMS[-i].inp or -i in seen)]
        # facts over inputs or over atoms visible in outputs
        vis = set(seen)
        work = list(seen)
        for b in mem:
            vis.add(b)
        for h, v in x.heap.items():
            if v[1] is not None:
                for i, _ in v[1][1]:
                    vis.add(i)
        for b, o in mem.items():
            for ov in o.ovl:
                for L in (ov[0], ov[1]):
                    if L is not None:
                        for i, _ in L[1]:
                            vis.add(i)
        if self.markfacts:
            for m in st.marks:
                for L in m:
                    if is_lin(L):
                        for i, _ in L[1]:
                            vis.add(i)
        for i in list(vis):
            close_args(i, vis)
        ok = lambda i: ATOMS[i].inp or i in vis or derived(i, vis)
        x.bnd = {i: b for i, b in st.bnd.items() if ok(i)}
        x.ineq = {f: True for f in st.ineq if all(ok(i) for i, _ in f[1])}
        x.neq = {f: True for f in st.neq if all(ok(i) for i, _ in f[1])}
        return x

    def leak(self, st, ins, h, v, x):
        self.finding("leak", st, ins, "memory allocated at line %s is neither freed nor reachable when %s returns" % (v[2][1][1], self.cur.name), extra=(h, v[2], x.ret))

    # ------------------------------------------------------------------ merging
    def signat(self, s, level):
        """grouping key for merging: resource shape first, then values, coarser with the level"""
        k = [tuple(sorted(s.locks)), tuple(sorted(s.rel)), tuple(sorted((r, v[0]) for r, v in s.res.items())), s.faults, s.marks]
        if level <= 3:
            k.append(tuple(sorted((h, v[0]) for h, v in s.heap.items())))
        if level <= 1:
            k.append(tuple(sorted(s.freed)))
        if level <= 2:
            if level == 0:
                k.append(frozenset(s.env.items()))
                k.append(frozenset((b, frozenset(o.cells.items()), o.ovl, o.dflt) for b, o in s.mem.items()))
            else:
                k.append(tuple(sorted((i, v) for i, v in s.env.items() if not v[1])))
                m = []
                for b, o in s.mem.items():
                    for co, cv in o.cells.items():
                        if not isinstance(co[0], str) and not cv[1][1]:
                            m.append((b, co, cv[1]))
                k.append(tuple(sorted(m)))
        else:
            # null-ness and boolean outputs only
            k.append(tuple(sorted((i, v[0] != 0) for i, v in s.env.items() if not v[1])))
        return tuple(k)

    def plain(self, s):
        if s.heap or s.freed or s.res or s.faults:
            return False
        for b, o in s.mem.items():
            a = ATOMS[b]
            if a.kind != "A" and not (a.kind == "G" and a.args[0] == "errno") and (o.cells or o.ovl):
                return False
        return True

    def merge(self, states, where):
        # exact duplicates
        d = {}
        for s in states:
            self.gc(s)
            key = (self.signat(s, 0), frozenset(s.bnd.items()), frozenset(s.ineq), frozenset(s.neq))
            d.setdefault(key, s)
        states = list(d.values())
        if self.eager and len(states) > 1:
            d = {}
            for s in states:
                d.setdefault(self.signat(s, 0), []).append(s)
            out = []
            for n, g in enumerate(d.values()):
                if len(g) == 1 or len(g) <= 4 and self.stamp == () and all(self.plain(s) for s in g):
                    out.extend(g)       # a few ways to get here without having done anything: keep the conditions
                else:
                    out.append(self.join(g, ("J", self.ctx, where, self.stamp, "e", n)))
            states = out
        if len(states) <= self.MAXB:
            return states
        for level in (0, 1, 2, 3, 4):
            d = {}
            for s in states:
                d.setdefault(self.signat(s, level), []).append(s)
            if len(d) > self.MAXB and level < 4:
                continue
            out = []
            # merge only as much as needed: largest groups first
            groups = sorted(d.items(), key=lambda kv: -len(kv[1]))
            total = len(states)
            for n, (k, g) in enumerate(groups):
                if len(g) > 1 and total > self.MAXB:
                    self.stats["merges"] += 1
                    total -= len(g) - 1
                    out.append(self.join(g, ("J", self.ctx, where, self.stamp, n)))
                else:
                    out.extend(g)
            if len(out) > 3 * self.MAXB:
                self.lossy_here = True
            return out
        return states

    def gc(self, s):
        """drop facts over dead local atoms"""
        vis = set()
        for v in s.env.values():
            for i, _ in v[1]:
                vis.add(i)
        for b, o in s.mem.items():
            vis.add(b)
            for co, cv in o.cells.items():
                for i, _ in cv[1][1]:
                    vis.add(i)
                if not isinstance(co[0], str):
                    for i, _ in co[1]:
                        vis.add(i)
            for ov in o.ovl:
                for L in (ov[0], ov[1]):
                    if L is not None:
                        for i, _ in L[1]:
                            vis.add(i)
        for h, v in s.heap.items():
            vis.add(h)
            if v[1] is not None:
                for i, _ in v[1][1]:
                    vis.add(i)
        for r in s.res:
            for i, _ in r[1]:
                vis.add(i)
        for r in s.locks + s.rel + tuple(s.freed):
            for i, _ in r[1]:
                vis.add(i)
        for e in s.entry.values():
            for v in e:
                for i, _ in v[1]:
                    vis.add(i)
        if self.markfacts:
            for m in s.marks:
                for L in m:
                    if is_lin(L):
                        for i, _ in L[1]:
                            vis.add(i)
        for i in list(vis):
            close_args(i, vis)
        ok = lambda i: ATOMS[i].inp or i in vis or derived(i, vis)
        for i in [i for i in s.bnd if not ok(i)]:
            del s.bnd[i]
        for f in [f for f in s.ineq if not all(ok(i) for i, _ in f[1])]:
            del s.ineq[f]
        for f in [f for f in s.neq if not all(ok(i) for i, _ in f[1])]:
            del s.neq[f]

    def join(self, g, jk):
        """least upper bound of states with equal resource shape"""
        r = g[0].copy()
        others = g[1:]
        def jv(vals, what):
            v0 = vals[0]
            if all(v == v0 for v in vals):
                return v0
            if any(ATOMS[i].ptr for i, _ in v0[1]):
                b0 = split(v0)[0]
                if b0 is not None and ATOMS[b0].kind != "RAW" and all(split(v)[0] == b0 for v in vals):
                    base = V(ATOMS[b0])
                    return add(base, jv([sub(v, base) for v in vals], (what, "off")))
            lo = min(s.lb(v) for s, v in zip(g, vals)); hi = max(s.ub(v) for s, v in zip(g, vals))
            ptr = any(ATOMS[i].ptr for v in vals for i, c in v[1])
            if not ptr:
                # values that move together stay related
                d = [sub(v, v0) for v in vals]
                for la, l0, ld in leads:
                    c = ratio(ld, d)
                    if c is not None and abs(c) <= 1 << 16:
                        return add(v0, scale(sub(la, l0), c))
            a = mk("J", (jk, what), -INF, INF, ptr)
            if not ptr and not any(self.isundef(v) for v in vals):
                leads.append((V(a), v0, d))
            if lo != -INF or hi != INF:
                newb[a.id] = (lo, hi)
            jmap[a.id] = vals
            return V(a)
        newb = {}; jmap = {}; leads = []
        for i in list(r.env):
            if all(i in s.env for s in others):
                r.env[i] = jv([s.env[i] for s in g], ("v", i))
            else:
                del r.env[i]
        # memory
        bases = set()
        for s in g:
            bases.update(s.mem)
        for b in sorted(bases):
            objs = [s.mem.get(b) for s in g]
            if all(o is objs[0] for o in objs):
                continue
            if any(o is None for o in objs):
                if ATOMS[b].kind in ("A",) and ATOMS[b].id not in r.mem:
                    pass
                objs = [o if o is not None else Obj(default_kind(b)) for o in objs]
            dk = objs[0].dflt
            if not all(o.dflt == dk for o in objs):
                dk = ("D", mk("F", (jk, "dflt", b)).id, ZERO)
            offs = []
            for o in objs:
                for co in o.cells:
                    if not isinstance(co[0], str) and co not in offs:
                        offs.append(co)
            ov = objs[0].ovl
            same = all(o.ovl == ov for o in objs)
            if not same:
                ov = self.join_ovl([o.ovl for o in objs], g, jk, b)
            cells = {}
            for co in offs:
                szs = {o.cells[co][0] for o in objs if co in o.cells}
                if len(szs) != 1:
                    sz = max(szs)
                    cells[co] = (sz, V(mk("J", (jk, ("m", b, co)))))
                    continue
                sz = szs.pop()
                base = addc(add(V(ATOMS[b]), co), 0)
                isptr = any(ATOMS[i].ptr for o in objs if co in o.cells for i, c in o.cells[co][1][1])
                vals = [o.cells[co][1] if co in o.cells else self.read(s, base, sz, isptr) for s, o in zip(g, objs)]
                if any(self.isundef(v) for v in vals) and not all(self.isundef(v) for v in vals):
                    a = mk("J", (jk, ("m", b, co)), -INF, INF, isptr)
                    cells[co] = (sz, V(a))
                    continue
                cells[co] = (sz, jv(vals, ("m", b, co)))
            r.mem[b] = Obj(dk, cells, ov); r.own.add(b)
        # a pointer that differs between the states: what all its targets agree on stays known behind it
        for aid, vals in list(jmap.items()):
            if not ATOMS[aid].ptr or aid in r.mem:
                continue
            bs = [single(v) for v in vals]
            if any(x is None or not x.ptr for x in bs):
                continue
            objs = [s.mem.get(x.id) for s, x in zip(g, bs)]
            if any(o is None for o in objs):
                continue
            cells = {}
            for co, cv in objs[0].cells.items():
                if isinstance(co[0], str) or any(co not in o.cells or o.cells[co][0] != cv[0] for o in objs):
                    continue
                vs = [o.cells[co][1] for o in objs]
                if any(self.isundef(v) for v in vs):
                    continue
                cells[co] = (cv[0], jv(vals=vs, what=("jm", aid, co)))
            if cells:
                r.mem[aid] = Obj(("E", V(ATOMS[aid]), ZERO), cells); r.own.add(aid)
        for h in list(r.heap):
            vs = [s.heap.get(h) for s in g]
            if any(v is None or v[0] != vs[0][0] for v in vs):
                del r.heap[h]          # freed or allocated on some paths only: no longer tracked
                continue
            if any(v[1] != vs[0][1] for v in vs):
                r.heap[h] = (r.heap[h][0], None, r.heap[h][2], r.heap[h][3])
        # facts: keep what every state implies
        self.join_res(r, g)
        r.bnd = {}
        for i in set().union(*[set(s.bnd) for s in g]):
            lo = min(s.lohi(i)[0] for s in g); hi = max(s.lohi(i)[1] for s in g)
            a = ATOMS[i]
            if (lo, hi) != (a.lo, a.hi):
                r.bnd[i] = (lo, hi)
        r.bnd.update(newb)
        cand = set().union(*[set(s.ineq) for s in g])
        r.ineq = {f: True for f in cand if all(f in s.ineq or s.le0(f, 2) for s in g)}
        candn = set().union(*[set(s.neq) for s in g])
        r.neq = {f: True for f in candn if all(f in s.neq or s.ev(("ne", f)) is True for s in g)}
        # relations of the join symbols: J <= x, J >= x and nonnull
        for aid, vals in jmap.items():
            a = ATOMS[aid]
            if a.ptr and all(s.ev(("ne", v)) is True for s, v in zip(g, vals)):
                lo, hi = r.bnd.get(aid, (-INF, INF))
                r.bnd[aid] = (max(lo, 1), hi)
            elif a.ptr:
                lo, hi = r.bnd.get(aid, (-INF, INF))
                r.bnd[aid] = (max(lo, 0), hi)
            seenf = set()
            for s, v in zip(g, vals):
                for f in s.ineq:
                    # fact mentioning all atoms of v with the right sign: replace v by J
                    if not v[1] or len(v[1]) > 2:
                        continue
                    fd = dict(f[1])
                    i0, c0 = v[1][0]
                    if i0 in fd and fd[i0] % c0 == 0:
                        q = fd[i0] // c0
                        t = add(sub(f, scale(v, q)), scale(V(a), q))
                        rest = sub(f, scale(v, q))
                        if t in seenf or any(ATOMS[j].kind == "J" and j in jmap for j, _ in rest[1]):
                            continue
                        seenf.add(t)
                        if all(s2.le0(add(rest, scale(v2, q)), 2) for s2, v2 in zip(g, vals)):
                            r.ineq[t] = True
                        elif t[0] == 1 and addc(t, -1) not in seenf:
                            # strictly below in this state, equal in another
                            t = addc(t, -1); rest = addc(rest, -1)
                            seenf.add(t)
                            if all(s2.le0(add(rest, scale(v2, q)), 2) for s2, v2 in zip(g, vals)):
                                r.ineq[t] = True
        r.alts = self.join_alts(r, g)
        # a block that some state could reach but the joined values no longer name is not tracked further
        if r.heap:
            self.escape(r, g)
        r.trace = g[0].trace
        r.seen = {i: True for i in r.seen if all(i in s.seen for s in others)}
        r.entry = g[0].entry if all(s.entry == g[0].entry for s in g) else {}
        r.lossy = any(s.lossy for s in g)
        return r

    def escape(self, r, g):
        rr = self.reach(r)
        lost = [h for h, v in r.heap.items() if h not in rr and v[0] == "live"]
        if lost:
            before = set()
            for s in g:
                before |= self.reach(s)
            for h in lost:
                if h in before:
                    del r.heap[h]
            return True
        return False

    def reach(self, s):
        """heap blocks named by live values or by memory other than unreachable heap blocks"""
        seen = set()
        work = [i for v in s.env.values() for i, _ in v[1]]
        for b, o in s.mem.items():
            if ATOMS[b].kind != "H":
                for co, cv in o.cells.items():
                    if not isinstance(co[0], str):
                        work.extend(i for i, _ in cv[1][1])
        for r in s.res:
            work.extend(i for i, _ in r[1])
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            if ATOMS[i].kind == "H":
                o = s.mem.get(i)
                if o is not None:
                    for co, cv in o.cells.items():
                        if not isinstance(co[0], str):
                            work.extend(j for j, _ in cv[1][1])
        return seen

    def join_alts(self, r, g):
        """what the joined state no longer implies, as alternatives: one of them holds"""
        common = tuple(a for a in r.alts if all(a in s.alts for s in g))
        if len(g) > 6:
            return common
        out = []
        for s in g:
            b = tuple(sorted((i, v) for i, v in s.bnd.items() if ATOMS[i].inp and r.lohi(i) != v))
            q = tuple(sorted(f for f in s.ineq if f not in r.ineq and lin_inp(f)))
            n = tuple(sorted(f for f in s.neq if f not in r.neq and lin_inp(f)))
            own = [a for a in s.alts if a not in common]
            if own and len(own[0]) <= 4:
                for b2, q2, n2 in own[0]:
                    out.append((tuple(sorted(set(b + b2))), tuple(sorted(set(q + q2))), tuple(sorted(set(n + n2)))))
            else:
                out.append((b, q, n))
        out = sorted(set(out))
        if len(out) < 2 or len(out) > 6 or len(common) >= 3 or any(not b and not q and not n for b, q, n in out):
            return common
        return common + (tuple(out),)

    def join_res(self, r, g):
        r.freed = {p: l for p, l in r.freed.items() if all(p in s.freed for s in g)}

    def isundef(self, v):
        a = single(v)
        return a is not None and a.kind == "U"

    def join_ovl(self, ovs, g, jk, b):
        n = 0
        while all(len(o) > n for o in ovs) and all(o[n] == ovs[0][n] for o in ovs):
            n += 1
        pre = ovs[0][:n]
        tails = [o[n:] for o in ovs]
        # same shapes, different data tokens
        if all(len(t) == len(tails[0]) for t in tails):
            out = []
            for k in range(len(tails[0])):
                xs = [t[k] for t in tails]
                if all(x[0] == xs[0][0] and x[1] == xs[0][1] for x in xs):
                    if all(x[2] == xs[0][2] for x in xs):
                        out.append(xs[0])
                    else:
                        out.append((xs[0][0], xs[0][1], ("D", mk("F", (jk, "ov", b, k)).id, xs[0][0])))
                else:
                    out = None; break
            if out is not None:
                return pre + tuple(out)
        # otherwise: cover everything that differs
        lo = None; hi = None
        for s, t in zip(g, tails):
            for x in t:
                if x[1] is None or x[0][1] or x[1][1]:
                    return pre + ((ZERO, None, ("D", mk("F", (jk, "ovx", b)).id, ZERO)),)
                lo = x[0][0] if lo is None else min(lo, x[0][0])
                e = x[0][0] + x[1][0]
                hi = e if hi is None else max(hi, e)
        if lo is None:
            return pre
        return pre + ((C(lo), C(hi - lo), ("D", mk("F", (jk, "ovc", b)).id, C(lo))),)

    # ------------------------------------------------------------------ loops
    def run_loop(self, loop, states):
        fn = self.cur
        self.stats["loops"] += 1
        for s in states:
            s.alts = ()
        h = loop.header
        exits = {}
        def collect(ex):
            for t, ss in ex.items():
                exits.setdefault(t, []).extend(ss)
        stamp0 = self.stamp
        if len(states) > 1:
            states = self.merge(states, h)
        phis = [p["i"] for p in fn.phis[h]]
        for s in states:
            s.entry[h] = tuple(s.env.get(i, ZERO) for i in phis)
        self.stamp = stamp0 + ((h, 0),)
        back, ex = self.run(loop, {h: states})
        collect(ex)
        for n in range(self.peel):
            if not back:
                break
            # further exact rounds; the rule looks only at what happens within them
            self.stamp = stamp0 + ((h, ("peel", n)),)
            back, ex = self.run(loop, {h: back})
            collect(ex)
        if self.peel:
            for s in back:
                self.cut(s, fn.blocks[h][-1])
            back = []
        if back:
            heads = self.group(back, h)
            # one more exact round, then widen to a fixpoint
            hs = [(k, self.loop_join(g, ("J", self.ctx, h, stamp0, "h", n)), {}) for n, (k, g) in enumerate(heads.items())]
            lossy = True
            ex = {}
            for it in range(9):
                self.stamp = stamp0 + ((h, 1 if it else 2),)
                nb = len(self.exits)
                ev = {k: list(v) for k, v in self.events.items()}
                fd = dict(self.findings)
                back, ex = self.run(loop, {h: [s.copy() for _, s, _ in hs]})
                if not back:
                    lossy = False
                    break
                hs2, stable = self.widen(hs, back, h, stamp0, phis, it)
                if stable:
                    lossy = False
                    break
                if it < 8:
                    # results of a non-final round are discarded
                    del self.exits[nb:]
                    self.events = ev
                    self.findings = fd
                hs = hs2
            if lossy:
                self.lossy_here = True
                self.stats["lossy"] += 1
                self.stats.setdefault("lossy_loops", []).append((fn.name, self.loc(fn.blocks[h][-1])[1]))
            collect(ex)
        self.stamp = stamp0
        for ss in exits.values():
            for s in ss:
                s.entry.pop(h, None)
        return exits

    def loopkey(self, s, h):
        nul = tuple(sorted((i, b[1] == 0) for i, b in s.bnd.items() if ATOMS[i].ptr and ATOMS[i].inp and (b[1] == 0 or b[0] >= 1)))
        # heap blocks allocated inside the loop are compared by allocation site, not instance
        return (tuple(sorted(s.locks)), tuple(sorted(s.rel)), tuple(sorted(s.freed)),
                tuple(sorted((r, v[0]) for r, v in s.res.items())), s.faults, s.marks, nul, s.entry.get(h))

    def group(self, states, h):
        d = {}
        for s in states:
            self.gc(s)
            # names of the values the iteration started with denote other values in the next one
            for p in [p for p in s.freed if any(self.headname(ATOMS[i], h) for i, _ in p[1])]:
                del s.freed[p]
                self.lost.add(self.cur.name)
            d.setdefault(self.loopkey(s, h), []).append(s)
        return d

    def headname(self, a, h):
        if a.kind == "W":
            return a.args[0][0] == self.ctx and a.args[0][1] == h
        if a.kind == "J":
            k = a.args[0]
            return len(k) > 2 and k[0] == "J" and k[1] == self.ctx and k[2] == h
        return any(self.headname(ATOMS[i], h) for i in sub_atoms(a.id) if ATOMS[i].kind in ("W", "J"))

    def loop_join(self, g, jk):
        # unify heap maps first: blocks live in only some states are dropped as summarised
        hs = set.intersection(*[set(s.heap) for s in g])
        for s in g:
            for x in [x for x in s.heap if x not in hs]:
                self.summarise_heap(s, x)
        for x in hs:
            if len({s.heap[x][0] for s in g}) > 1:
                for s in g:
                    self.summarise_heap(s, x)
        if len(g) == 1:
            return g[0]
        self.stats["merges"] += 1
        return self.join(g, jk)

    def summarise_heap(self, s, x):
        """a block allocated in an earlier iteration: report it if nothing holds it, then stop tracking it"""
        v = s.heap.pop(x, None)
        if v is None or v[0] == "freed":
            return
        # held by some other memory?
        for b, o in s.mem.items():
            if b == x:
                continue
            for co, cv in o.cells.items():
                if any(i == x for i, _ in cv[1][1]):
                    return
            if o.ovl and ATOMS[b].kind != "A":
                pass
        for val in s.env.values():
            if any(i == x for i, _ in val[1]):
                return
        self.findings.setdefault(("leak", self.cur.name, v[2][1], "loop"),
            Finding("leak", self.cur.name, v[2][1], "memory allocated in a loop at line %s is lost by the next iteration" % v[2][1][1], (), s.trace, (x, v[2], None)))

    def widen(self, hs, back, h, stamp0, phis, it):
        groups = self.group(back, h)
        heads = {k: (s, info) for k, s, info in hs}
        out = []; stable = True
        for n, (k, g) in enumerate(groups.items()):
            if k not in heads:
                stable = False
                out.append((k, self.loop_join([s.copy() for s in g], ("J", self.ctx, h, stamp0, "n%d" % it, n)), {}))
                continue
            H, info = heads[k]
            H2, ok = self.widen1(H, g, h, stamp0, phis, info, it, hash(repr(k)) & 0xffff if False else list(heads).index(k))
            if not ok:
                stable = False
            out.append((k, H2, info))
        for k, (s, info) in heads.items():
            if k not in groups:
                out.append((k, s, info))
        if len(out) > 10:
            # too many partitions: keep, but they will be merged by block budget
            pass
        return out, stable

    def widen1(self, H, g, h, stamp0, phis, info, it, gi):
        """generalise head state H so that it covers the back-edge states g"""
        wk = (self.ctx, h, stamp0, gi)
        # heap of the iteration
        for s in g:
            for x in [x for x in s.heap if x not in H.heap]:
                self.summarise_heap(s, x)
        N = H.copy()
        changed = False
        wmap = {}       # W atom id -> list of back values
        for x in list(N.heap):
            if any(x not in s.heap or s.heap[x][0] != N.heap[x][0] for s in g):
                del N.heap[x]
                changed = True
        rel_drop = []
        comps = []      # (get back values, current head value, setter)
        def isW(v):
            a = single(v)
            return a if a is not None and a.kind == "W" and a.args[0] == wk else None
        def common(hv, bv):
            b0 = split(hv)[0]
            if b0 is None or ATOMS[b0].kind in ("RAW", "W", "U") or not all(split(v)[0] == b0 for v in bv):
                return None
            return V(ATOMS[b0])
        cbase = info.setdefault("base", {})     # component -> base its offsets are measured from
        # collect components
        cl = []
        for i in list(N.env):
            if all(i in s.env for s in g):
                cl.append((("v", i), N.env[i], [s.env[i] for s in g]))
            else:
                del N.env[i]; changed = True
        bases = set(N.mem)
        for s in g:
            bases.update(s.mem)
        ovl_todo = []
        for b in sorted(bases):
            objs = [s.mem.get(b) or Obj(default_kind(b)) for s in g]
            ho = N.mem.get(b) or Obj(default_kind(b))
            if all(o is ho for o in objs):
                continue
            if ATOMS[b].kind == "A" and b not in N.mem:
                continue      # local created inside the body
            if ATOMS[b].kind == "H" and b not in N.heap:
                continue
            offs = list(ho.cells)
            for o in objs:
                for co in o.cells:
                    if co not in offs:
                        offs.append(co)
            loc = lambda L: any(not ATOMS[i].inp and self.iteratom(ATOMS[i], h, stamp0) for i, _ in L[1])
            for co in offs:
                if isinstance(co[0], str):
                    if co in ho.cells and not all(co in o.cells and o.cells[co] == ho.cells[co] for o in objs):
                        del N.wobj(b).cells[co]; changed = True
                    continue
                szs = {o.cells[co][0] for o in objs if co in o.cells} | ({ho.cells[co][0]} if co in ho.cells else set())
                if loc(co):
                    # symbolic slot of this iteration only: becomes part of the summarised region
                    if co in ho.cells:
                        del N.wobj(b).cells[co]; changed = True
                    ovl_todo.append((b, "slot"))
                    continue
                if len(szs) != 1:
                    w = mk("W", (wk, ("m", b, co)))
                    if co not in ho.cells or ho.cells[co][1] != V(w):
                        changed = True
                        N.wobj(b).cells[co] = (max(szs), V(w))
                    continue
                sz = szs.pop()
                ad = add(V(ATOMS[b]), co)
                isptr = any(ATOMS[i].ptr for o in objs + [ho] if co in o.cells for i, c in o.cells[co][1][1])
                hv = ho.cells[co][1] if co in ho.cells else self.read(H, ad, sz, isptr)
                bv = [o.cells[co][1] if co in o.cells else self.read(s, ad, sz, isptr) for s, o in zip(g, objs)]
                if co not in ho.cells:
                    if all(x == hv for x in bv):
                        continue
                cl.append((("m", b, co, sz), hv, bv))
            if ho.dflt != objs[0].dflt or any(o.ovl != ho.ovl for o in objs):
                ovl_todo.append((b, "ovl"))
        # pointers into one object are tracked by their offset
        cl2 = []
        for key, hv, bv in cl:
            B = cbase.get(key)
            if B is None and any(ATOMS[i].ptr for i, _ in hv[1]) and not all(v == hv for v in bv):
                B = common(hv, bv)
                if B is not None and isW(hv) is None:
                    cbase[key] = B
                else:
                    B = None
            elif B is not None and not all(split(v)[0] == B[1][0][0] for v in bv + [hv]):
                # left its object: an unrelated pointer from now on
                del cbase[key]
                rel_drop.append(key)
                B = None
            if B is not None:
                hv = sub(hv, B); bv = [sub(v, B) for v in bv]
            cl2.append((key, hv, bv))
        cl = cl2
        # which components vary
        rel = info.setdefault("rel", {})
        leaders = info.setdefault("lead", [])
        newW = []
        sub_now = {}
        vary = []
        for key, hv, bv in cl:
            a = isW(hv)
            if a is not None:
                wmap[a.id] = bv
                continue
            if key in rel:
                continue
            if all(s.norm(v) == s.norm(hv) or v == hv for s, v in zip(g, bv)):
                continue
            vary.append((key, hv, bv))
        for key in rel_drop:
            rel.pop(key, None)
        def setc(key, v):
            if key in cbase:
                v = add(cbase[key], v)
            if key[0] == "v":
                N.env[key[1]] = v
            else:
                N.wobj(key[1]).cells[key[2]] = (key[3], v)
        # related components first checked: value = base + c*(leader - lbase)
        for key, hv, bv in cl:
            if key in rel:
                lead, c, base, lbase = rel[key]
                lw = None
                for k2, hv2, bv2 in cl:
                    if k2 == lead:
                        lw = bv2; break
                okr = lw is not None and all(s.is0(sub(v, add(base, scale(sub(l, lbase), c)))) for s, v, l in zip(g, bv, lw))
                if not okr:
                    del rel[key]
                    isptr = key not in cbase and any(ATOMS[i].ptr for v in bv + [hv] for i, c in v[1])
                    w = mk("W", (wk, key), -INF, INF, isptr)
                    setc(key, V(w)); changed = True
                    wmap[w.id] = bv
                    newW.append((w, hv, bv))
                    leaders.append(key)
        if vary:
            changed = True
            undefish = lambda v: self.isundef(v)
            lead_d = []
            for key, hv, bv in vary:
                isptr = key not in cbase and any(ATOMS[i].ptr for v in bv + [hv] for i, c in v[1])
                deltas = [sub(v, hv) for v in bv]
                done = False
                if not any(undefish(v) for v in bv + [hv]):
                    for lk, lhv, ld in lead_d:
                        c = ratio(ld, deltas)
                        if c is not None:
                            rel[key] = (lk, c, hv, lhv)
                            done = True
                            break
                if done:
                    continue
                w = mk("W", (wk, key), -INF, INF, isptr)
                setc(key, V(w))
                wmap[w.id] = bv
                newW.append((w, hv, bv))
                leaders.append(key)
                if not any(undefish(v) for v in bv + [hv]):
                    lead_d.append((key, hv, deltas))
            for key in list(rel):
                lead, c, base, lbase = rel[key]
                wv = V(mk("W", (wk, lead)))
                setc(key, add(base, scale(sub(wv, lbase), c)))
        # facts of the new symbols
        ents = [H] + g
        for w, hv, bv in newW:
            vals = [hv] + bv
            lo = min(s.lb(v) for s, v in zip(ents, vals)); hi = max(s.ub(v) for s, v in zip(ents, vals))
            llo, lhi = H.lb(hv), H.ub(hv)
            # widen unstable interval ends
            if lo < llo:
                lo = 0 if all(s.le0(neg(v)) for s, v in zip(ents, vals)) else -INF
            if hi > lhi:
                hi = INF
                for th in (1, 255, 65535):
                    if max(s.ub(v) for s, v in zip(ents, vals)) <= th and it < 3 and th == 1:
                        hi = th; break
            if lo == -INF and all(s.le0(neg(v)) for s, v in zip(ents, vals)):
                lo = 0
            if w.ptr and all(s.ev(("ne", v)) is True for s, v in zip(ents, vals)):
                lo = max(lo, 1)
            elif w.ptr:
                lo = max(lo, 0)
            if (lo, hi) != (-INF, INF):
                N.bnd[w.id] = (lo, hi)
            cands = set()
            W = V(w)
            if hv[1] or hi == INF:
                cands.add(sub(W, hv))
            cands.add(sub(hv, W))
            for s, v in zip(ents, vals):
                for f in list(s.ineq):
                    t = self.refact(f, v, W)
                    if t is not None:
                        cands.add(t)
                if not v[1]:
                    # constant now: a bound of another quantity that moves along with it
                    for i, (bl, bh) in s.bnd.items():
                        if not self.iteratom(ATOMS[i], h, stamp0) and ATOMS[i].kind != "CMP":
                            if bl not in (-INF,) and bl > ATOMS[i].lo:
                                cands.add(sub(addc(W, int(bl) - v[0]), V(ATOMS[i])))
                            if bh != INF and bh < ATOMS[i].hi:
                                cands.add(sub(V(ATOMS[i]), addc(W, int(bh) - v[0])))
            for t in cands:
                if any(ATOMS[i].kind not in ("W",) and self.iteratom(ATOMS[i], h, stamp0) for i, _ in t[1]):
                    continue
                if sum(1 for i, _ in t[1] if ATOMS[i].kind == "W" and ATOMS[i].args[0] == wk and i != w.id):
                    continue
                rest_c = dict(t[1]).get(w.id)
                if rest_c is None:
                    continue
                rest = (t[0], tuple(x for x in t[1] if x[0] != w.id))
                if all(s.le0(add(rest, scale(v, rest_c)), 2) for s, v in zip(ents, vals)):
                    if N.ub(t) > 0:
                        N.ineq[t] = True
        # re-check facts of the head against the back states
        sig = {}
        def backlin(L, n):
            r = (L[0], ())
            for i, c in L[1]:
                if i in wmap:
                    r = add(r, scale(wmap[i][n], c))
                else:
                    r = add(r, (0, ((i, c),)))
            return r
        for i in list(N.bnd):
            if self.iteratom(ATOMS[i], h, stamp0) and ATOMS[i].kind != "W":
                continue
            lo, hi = N.bnd[i]
            if i in [w.id for w, _, _ in newW]:
                continue
            if i in wmap:
                blo = min(s.lb(v) for s, v in zip(g, wmap[i])); bhi = max(s.ub(v) for s, v in zip(g, wmap[i]))
                if lo != -INF and blo < lo and not all(s.le0(sub(C(int(lo)), v), 2) for s, v in zip(g, wmap[i])):
                    lo = 0 if lo > 0 and blo >= 0 else -INF
                if hi != INF and bhi > hi and not all(s.le0(addc(v, -int(hi)), 2) for s, v in zip(g, wmap[i])):
                    hi = INF
            else:
                blo = min(s.lohi(i)[0] for s in g); bhi = max(s.lohi(i)[1] for s in g)
                if blo < lo:
                    lo = ATOMS[i].lo
                if bhi > hi:
                    hi = ATOMS[i].hi
            if (lo, hi) != N.bnd[i]:
                changed = True
                if (lo, hi) == (ATOMS[i].lo, ATOMS[i].hi):
                    del N.bnd[i]
                else:
                    N.bnd[i] = (lo, hi)
        for f in list(N.ineq):
            if any(ATOMS[i].kind != "W" and self.iteratom(ATOMS[i], h, stamp0) for i, _ in f[1]):
                del N.ineq[f]; continue
            if not all(f in s.ineq and not any(i in wmap for i, _ in f[1]) or s.le0(backlin(f, n), 3) for n, s in enumerate(g)):
                del N.ineq[f]; changed = True
        for f in list(N.neq):
            if not all((f in s.neq and not any(i in wmap for i, _ in f[1])) or s.ev(("ne", backlin(f, n))) is True for n, s in enumerate(g)):
                del N.neq[f]; changed = True
        # regions
        done = set()
        for b, why in ovl_todo:
            if b in done:
                continue
            done.add(b)
            if self.widen_ovl(N, H, g, b, wk, wmap, rel, cl, h, stamp0):
                changed = True
        if N.heap and self.escape(N, [H] + g):
            changed = True
        return N, not changed

    def refact(self, f, v, W):
        """rewrite fact f by replacing the form v with W when v occurs in it"""
        if not v[1]:
            return None
        fd = dict(f[1])
        i0, c0 = v[1][0]
        if i0 not in fd or fd[i0] % c0:
            return None
        q = fd[i0] // c0
        return add(sub(f, scale(v, q)), scale(W, q))

    def iteratom(self, a, h, stamp0):
        """was this atom created inside the current loop of the current function?"""
        k = a.kind
        if k in ("P", "G", "FN"):
            return False
        if a.inp:
            return False
        n = len(stamp0)
        return stamped(a, self.ctx, h, n)

    def widen_ovl(self, N, H, g, b, wk, wmap, rel, cl, h, stamp0):
        ho = N.mem.get(b) or Obj(default_kind(b))
        objs = [s.mem.get(b) or Obj(default_kind(b)) for s in g]
        tok = mk("F", ("wov", wk, b))
        whole = (ZERO, None, ("D", tok.id, ZERO))
        if whole in ho.ovl:
            return False
        # common prefix
        n = 0
        while len(ho.ovl) > n and all(len(o.ovl) > n and o.ovl[n] == ho.ovl[n] for o in objs):
            n += 1
        hullk = ("D", tok.id)
        tails = [ho.ovl[n:]] + [o.ovl[n:] for o in objs]
        # identical shapes, fresh content: same region, new token
        if all(len(t) == len(tails[0]) for t in tails):
            okk = True; out = []
            for k in range(len(tails[0])):
                xs = [t[k] for t in tails]
                if all(x[0] == xs[0][0] and x[1] == xs[0][1] for x in xs):
                    if all(x[2] == xs[0][2] for x in xs):
                        out.append(xs[0])
                    else:
                        out.append((xs[0][0], xs[0][1], ("D", mk("F", ("wov", wk, b, k)).id, xs[0][0])))
                else:
                    okk = False; break
            if okk:
                new = ho.ovl[:n] + tuple(out)
                if new != ho.ovl:
                    o2 = N.wobj(b); o2.ovl = new
                    return True
                return False
        # a growing prefix region [s, e) with e an induction pointer
        if tails[0] and all(t for t in tails):
            s0 = tails[0][0][0]
            for key, hv, bv in cl:
                cur = N.env.get(key[1]) if key[0] == "v" else None
                if cur is None or not any(ATOMS[i].ptr for i, _ in cur[1]):
                    continue
                cb, coff = split(cur)
                if cb == b:
                    exprs = (hv, bv)
                else:
                    wa = single(cur)
                    if wa is None or wa.kind != "W":
                        continue
                    # pointer widened on its own: usable if its first value is based on b
                    if split(hv)[0] != b:
                        continue
                    exprs = (hv, bv)
                okk = True
                for st_, t, e in zip([H] + g, tails, [exprs[0]] + list(exprs[1])):
                    eb, eoff = split(e)
                    if eb != b:
                        okk = False; break
                    for x in t:
                        if x[1] is None or not st_.le0(sub(s0, x[0])) or not st_.le0(sub(add(x[0], x[1]), eoff)):
                            okk = False; break
                    if not okk:
                        break
                if okk and cb == b:
                    new = ho.ovl[:n] + ((s0, sub(coff, s0), ("D", tok.id, s0)),)
                    if new != ho.ovl:
                        o2 = N.wobj(b); o2.ovl = new
                        return True
                    return False
        # hull of constant regions
        lo = None; hi = None; const = True
        for t in tails:
            for x in t:
                if x[1] is None or x[0][1] or x[1][1]:
                    const = False; break
                lo = x[0][0] if lo is None else min(lo, x[0][0])
                hi = x[0][0] + x[1][0] if hi is None else max(hi, x[0][0] + x[1][0])
        o2 = N.wobj(b)
        if const and lo is not None:
            # grown already once? then give up precision
            if any(x[2] == ("D", tok.id, C(x[0][0])) for x in ho.ovl[n:] if not x[0][1]):
                o2.ovl = ho.ovl[:n] + (whole,)
            else:
                o2.ovl = ho.ovl[:n] + ((C(lo), C(hi - lo), ("D", tok.id, C(lo))),)
            return True
        o2.ovl = ho.ovl[:n] + (whole,)
        return True

    # ------------------------------------------------------------------ exit reduction
    def errno_class(self, x):
        g = mk("G", ("errno",), 4096, INF, True)
        o = x.mem.get(g.id)
        if o is None:
            return "E0"
        c = o.cells.get(ZERO)
        if c is None:
            return "?"
        v = c[1]
        if not v[1]:
            return v[0]
        return "E0" if single(v) is not None and single(v).kind == "M" else "nz"

    def exit_key(self, x, level):
        ret = None
        if x.ret is not None:
            if not x.ret[1]:
                ret = x.ret[0]
            else:
                a = split(x.ret)[0]
                if a is not None and ATOMS[a].kind in ("H", "G", "A", "FN"):
                    ret = ("ptr", a)
                else:
                    lo = sum_lb(x, x.ret)
                    ret = "pos" if lo >= 1 else ("nn" if lo >= 0 else "any")
        k = [ret, tuple(sorted(x.locks)), tuple(sorted(x.rel)),
             tuple(sorted((r, v[0]) for r, v in x.res.items())), x.faults, x.marks]
        if level <= 4:
            k.append(tuple(sorted((h, v[0]) for h, v in x.heap.items())))
        if level <= 1:
            k.append(tuple(sorted(x.freed)))
        if level <= 3:
            k.append(self.errno_class(x))
        if level <= 2:
            m = []
            for b, o in x.mem.items():
                if ATOMS[b].kind == "H":
                    continue
                for co, cv in o.cells.items():
                    if not isinstance(co[0], str) and not cv[1][1] and not co[1]:
                        m.append((b, co[0], cv[1][0]))
            k.append(tuple(sorted(m)))
        if level == 0:
            k.append(tuple(sorted((b, tuple(sorted(co for co in o.cells if not isinstance(co[0], str)))) for b, o in x.mem.items())))
            k.append(tuple(sorted((i, b) for i, b in x.bnd.items() if ATOMS[i].ptr and ATOMS[i].inp and (b[1] == 0))))
        return tuple(k)

    def reduce_exits(self, exits):
        if self.peel:
            cuts = [x for x in exits if CUT in x.marks]
            if cuts:
                d = {}
                for x in cuts:
                    d.setdefault((frozenset(x.bnd.items()), frozenset(x.ineq), frozenset(x.neq)), x)
                cuts = list(d.values())
                if len(cuts) > 2 * self.MAXX:
                    cuts = [self.join_exits(cuts, ("c", 0))]
                return self.reduce_exits([x for x in exits if CUT not in x.marks]) + cuts
        if len(exits) <= 1:
            return exits
        # exact duplicates
        d = {}
        for x in exits:
            key = (self.exit_key(x, 0), x.ret, tuple(sorted(((b, tuple(sorted(o.cells.items(), key=repr)), o.ovl) for b, o in x.mem.items()), key=lambda t: t[0])),
                   frozenset(x.bnd.items()), frozenset(x.ineq), frozenset(x.neq))
            d.setdefault(key, x)
        exits = list(d.values())
        if self.eager:
            # same effect and result, different conditions: one exit with the common facts
            d = {}
            plain = [x for x in exits if not x.heap and not x.freed and not x.res and not x.faults and
                     all(ATOMS[b].kind == "G" and ATOMS[b].args[0] == "errno" for b in x.mem)]
            for n, x in enumerate(exits):
                if x in plain and len(plain) <= 4:
                    d[n] = [x]; continue      # a few outcomes without effect: the conditions are all they say
                key = (x.ret, x.locks, x.rel, x.faults, x.marks, x.lossy, frozenset(x.heap.items()), frozenset(x.freed), frozenset((r, v[0]) for r, v in x.res.items()),
                       frozenset((b, frozenset(o.cells.items()), o.ovl) for b, o in x.mem.items()))
                d.setdefault(key, []).append(x)
            exits = [g[0] if len(g) == 1 else self.join_exits(g, ("e", n)) for n, g in enumerate(d.values())]
        if len(exits) <= self.MAXX:
            return exits
        for level in (0, 1, 2, 3, 4, 5):
            d = {}
            for x in exits:
                d.setdefault(self.exit_key(x, level), []).append(x)
            if len(d) > self.MAXX and level < 5:
                continue
            out = []; total = len(exits)
            for n, (k, g) in enumerate(sorted(d.items(), key=lambda kv: -len(kv[1]))):
                if len(g) > 1 and total > self.MAXX:
                    total -= len(g) - 1
                    self.stats["merges"] += 1
                    out.append(self.join_exits(g, n))
                else:
                    out.extend(g)
            return out

    def join_exits(self, g, n):
        sts = []
        for x in g:
            s = St()
            s.mem = dict(x.mem); s.bnd = dict(x.bnd); s.ineq = dict(x.ineq); s.neq = dict(x.neq)
            s.locks = x.locks; s.rel = x.rel; s.heap = dict(x.heap); s.freed = dict(x.freed); s.res = dict(x.res)
            s.faults = x.faults; s.marks = x.marks; s.trace = x.trace; s.lossy = x.lossy; s.alts = x.alts
            if x.ret is not None:
                s.env["ret"] = x.ret
            sts.append(s)
        r = self.join(sts, ("JX", self.ctx, n))
        x = Exit()
        x.ret = r.env.get("ret"); x.mem = r.mem; x.bnd = r.bnd; x.ineq = r.ineq; x.neq = r.neq
        x.locks = r.locks; x.rel = r.rel; x.heap = r.heap; x.freed = r.freed; x.res = r.res; x.faults = r.faults
        x.alts = r.alts
        x.marks = r.marks; x.trace = r.trace; x.loc = g[0].loc; x.lossy = r.lossy; x.env = None
        x.arith = [i for i in g[0].arith if all(i in y.arith for y in g)]
        return x

def sum_lb(x, L):
    s = L[0]
    for i, c in L[1]:
        b = x.bnd.get(i) or (ATOMS[i].lo, ATOMS[i].hi)
        s += c * (b[0] if c > 0 else b[1])
    return s

_closed = {}
def close_args(i, vis):
    """add the atoms occurring inside atom i"""
    for j in sub_atoms(i):
        vis.add(j)

def derived(i, vis):
    """is atom i a plain function of atoms that stay visible?"""
    return ATOMS[i].kind == "OP" and all(ATOMS[j].inp or j in vis or ATOMS[j].kind == "OP" for j in sub_atoms(i))

def sub_atoms(i):
    r = _closed.get(i)
    if r is None:
        out = set()
        def go(x):
            if type(x) is tuple:
                if is_lin(x):
                    for j, _ in x[1]:
                        if j not in out:
                            out.add(j)
                            out.update(sub_atoms(j))
                else:
                    for y in x:
                        go(y)
        a = ATOMS[i]
        if a.kind in ("OP", "CMP", "M", "SL"):
            for x in a.args:
                go(x)
        elif a.kind == "D":
            out.add(a.args[0])
            go(a.args[1])
        r = frozenset(out)
        _closed[i] = r
    return r

_stampc = {}
def stamped(a, ctx, h, n):
    key = (a.id, ctx, h, n)
    r = _stampc.get(key)
    if r is None:
        r = _stamped(a, ctx, h, n)
        _stampc[key] = r
    return r

def _stamped(a, ctx, h, n):
    def instamp(s):
        return type(s) is tuple and len(s) > n and type(s[n]) is tuple and len(s[n]) == 2 and s[n][0] == h
    k = a.kind
    if k == "F" or k == "H" or k == "U":
        if ctx in a.args and any(instamp(x) for x in a.args if type(x) is tuple):
            return True
        # derived names (copies, mixes): any nested stamp counts
        return any(_nested(x, ctx, h, n) for x in a.args)
    if k == "A":
        return a.args[0] == ctx and instamp(a.args[3])
    if k == "J":
        return _nested(a.args[0], ctx, h, n)
    if k == "W":
        wk = a.args[0]
        # W of an inner loop of this function executed inside this loop
        return wk[0] == ctx and wk[1] != h and instamp(wk[2])
    if k == "D":
        return stamped(ATOMS[a.args[0]], ctx, h, n) or any(stamped(ATOMS[i], ctx, h, n) for i, _ in a.args[1][1])
    for i in sub_atoms(a.id):
        if stamped(ATOMS[i], ctx, h, n):
            return True
    return False

def _nested(x, ctx, h, n):
    if type(x) is not tuple:
        return False
    if is_lin(x):
        return any(stamped(ATOMS[i], ctx, h, n) for i, _ in x[1])
    if len(x) > n and type(x[n]) is tuple and len(x[n]) == 2 and x[n][0] == h and all(type(y) is tuple and len(y) == 2 and type(y[0]) is int and type(y[1]) is int for y in x):
        return True
    return any(_nested(y, ctx, h, n) for y in x if type(y) is tuple)

def ratio(a, b):
    """c with b[n] == c*a[n] for all n"""
    c = None
    for x, y in zip(a, b):
        if x == ZERO:
            if y != ZERO:
                return None
            continue
        if not x[1]:
            if y[1] or x[0] == 0 or y[0] % x[0]:
                return None
            q = y[0] // x[0]
        else:
            if not y[1] or len(y[1]) != len(x[1]):
                return None
            if y[1][0][1] % x[1][0][1]:
                return None
            q = y[1][0][1] // x[1][0][1]
            if scale(x, q) != y:
                return None
        if q == 0 or (c is not None and c != q):
            return None
        c = q
    return c

class Subst:
    """callee terms -> caller terms at one call site"""
    def __init__(self, eng, st, ins, fn, args):
        self.e = eng; self.st = st.copy(); self.ins = ins; self.fn = fn; self.args = args
        self.m = {}; self.lc = {}; self.feas = {}
        self.site = (eng.ctx, ins["i"], eng.stamp)
    def lin(self, L):
        if L is None:
            return None
        if not L[1]:
            return L
        r = self.lc.get(L)
        if r is None:
            r = (L[0], ())
            for i, c in L[1]:
                r = add(r, scale(self.atom(ATOMS[i]), c))
            self.lc[L] = r
        return r
    def atomid(self, i):
        v = self.atom(ATOMS[i])
        return v[1][0][0]
    def kind(self, k):
        if k[0] == "D":
            return ("D", self.tok(k[1]), self.lin(k[2]))
        if k[0] == "E":
            return ("E", self.lin(k[1]), self.lin(k[2]))
        return k
    def tok(self, i):
        v = self.atom(ATOMS[i])
        return v[1][0][0] if v[1] else i
    def atom(self, a):
        r = self.m.get(a.id)
        if r is None:
            r = self._atom(a)
            self.m[a.id] = r
        return r
    def _atom(self, a):
        k = a.kind; e = self.e; st = self.st
        if k == "P":
            if a.args[0] != self.fn.name:
                return V(a)
            n = a.args[1]
            return self.args[n] if n < len(self.args) else V(a)
        if k in ("G", "FN"):
            return V(a)
        if k == "M":
            addr = self.lin(a.args[0])
            v = e.read(st, addr, a.args[1], a.ptr, a.tag, None)
            s = single(v)
            if s is not None and s.kind == "M" and s.lo == -INF and s.hi == INF and (a.lo, a.hi) != (-INF, INF):
                s.lo, s.hi = a.lo, a.hi
            return v
        if k == "SL":
            return V(mk("SL", (self.lin(a.args[0]),) + (self.site,) + a.args[1:], 0))
        if k == "OP":
            return self.op(a)
        if k == "CMP":
            return e.mkcmp(st, (a.args[0], self.lin(a.args[1])))
        if k == "D":
            t = self.tok(a.args[0])
            rel = self.lin(a.args[1])
            if e.datum is not None:
                v = e.datum(t, rel, a.args[2])
                if v is not None:
                    return v
            return V(mk("D", (t, rel, a.args[2]), a.lo, a.hi, a.ptr, a.tag))
        if k == "A":
            return V(a)
        if k in ("F", "W", "J", "U", "RAW"):
            n = mk("F" if k != "U" else "U", self.site + (a.id,), a.lo, a.hi, a.ptr, a.tag)
            return V(n)
        if k == "H":
            n = mk("H", self.site + (a.id,), 4096, INF, True, a.tag)
            return V(n)
        raise Broken("subst " + k)
    def op(self, a):
        e = self.e; st = self.st
        o = a.args[0]
        if o == "zx":
            return e.zx(st, self.lin(a.args[2]), a.args[1])
        if o == "sx":
            return e.sx(st, self.lin(a.args[2]), a.args[1])
        if o == "tr":
            return e.tr(st, self.lin(a.args[2]), a.args[1])
        if o == "and" and not isinstance(a.args[2], tuple):
            x = self.lin(a.args[1]); k = a.args[2]
            x = st.norm(x)
            if not x[1]:
                return C(x[0] & k)
            return V(mk("OP", ("and", x, k), 0, k))
        if o == "shr":
            x = st.norm(self.lin(a.args[1]))
            if not x[1] and x[0] >= 0:
                return C(x[0] >> a.args[2])
            return V(mk("OP", ("shr", x, a.args[2]), a.lo, a.hi))
        if o == "eqbig":
            x = st.norm(self.lin(a.args[1]))
            if not x[1]:
                return C(int(x[0] & ((1 << 64) - 1) == a.args[2]))
            return V(mk("OP", ("eqbig", x, a.args[2]), 0, 1))
        if o == "slice":
            x = st.norm(self.lin(a.args[3]))
            if not x[1]:
                return C((x[0] >> a.args[1]) & ((1 << a.args[2]) - 1))
            return V(mk("OP", ("slice", a.args[1], a.args[2], x), a.lo, a.hi))
        if o in ("mul",):
            x, y = self.lin(a.args[1]), self.lin(a.args[2])
            if not x[1]:
                return scale(y, x[0])
            if not y[1]:
                return scale(x, y[0])
            return V(mk("OP", ("mul", min(x, y), max(x, y)), a.lo, a.hi))
        if o in ("div", "rem"):
            x, y = st.norm(self.lin(a.args[1])), st.norm(self.lin(a.args[2]))
            if not x[1] and not y[1] and y[0]:
                return C(x[0] // y[0] if o == "div" else x[0] % y[0])
            return V(mk("OP", (o, x, y), a.lo, a.hi))
        if o in ("and", "or", "xor") and is_lin(a.args[1]) and is_lin(a.args[2]):
            x, y = st.norm(self.lin(a.args[1])), st.norm(self.lin(a.args[2]))
            if not x[1]:
                x, y = y, x
            if not y[1] and not x[1]:
                return C(x[0] & y[0] if o == "and" else x[0] | y[0] if o == "or" else x[0] ^ y[0])
            if not y[1] and y[0] == 0:
                return ZERO if o == "and" else x
            if not y[1] and y[0] > 0 and o == "and":
                if st.lb(x) >= 0 and (y[0] & (y[0] + 1)) == 0 and st.ub(x) <= y[0]:
                    return x
                return V(mk("OP", ("and", x, y[0]), 0, y[0]))
            return V(mk("OP", (o, min(x, y), max(x, y)), a.lo, a.hi))
        return V(mk("OP", tuple(self.lin(x) if is_lin(x) else x for x in a.args), a.lo, a.hi, a.ptr, a.tag))
