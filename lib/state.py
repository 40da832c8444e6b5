"""Abstract state: one disjunct = SSA environment, symbolic memory, numeric facts, locks, heap, resources."""
from terms import *
from math import gcd, floor, ceil

class Obj:
    """Memory of one base: exact cells over ordered region overlays over a default."""
    __slots__ = ("cells", "ovl", "dflt")
    def __init__(self, dflt, cells=None, ovl=()):
        self.dflt = dflt
        self.cells = cells if cells is not None else {}
        self.ovl = ovl
    def copy(self):
        return Obj(self.dflt, dict(self.cells), self.ovl)

class St:
    __slots__ = ("env", "mem", "own", "bnd", "ineq", "neq", "locks", "rel", "heap", "freed", "res",
                 "faults", "trace", "prev", "entry", "marks", "lossy", "seen", "alts")
    def __init__(self):
        self.env = {}; self.mem = {}; self.own = set(); self.bnd = {}; self.ineq = {}; self.neq = {}
        self.locks = (); self.rel = (); self.heap = {}; self.freed = {}; self.res = {}
        self.faults = frozenset(); self.trace = None; self.prev = None; self.entry = {}; self.marks = frozenset()
        self.lossy = False; self.seen = {}; self.alts = ()
    def copy(self):
        s = St.__new__(St)
        s.env = dict(self.env); s.mem = dict(self.mem); s.own = set(); self.own = set()  # objects become shared
        s.bnd = dict(self.bnd); s.ineq = dict(self.ineq); s.neq = dict(self.neq)
        s.locks = self.locks; s.rel = self.rel; s.heap = dict(self.heap); s.freed = dict(self.freed)
        s.res = dict(self.res); s.faults = self.faults; s.trace = self.trace; s.prev = self.prev
        s.entry = dict(self.entry); s.marks = self.marks; s.lossy = self.lossy; s.seen = dict(self.seen); s.alts = self.alts
        return s

    # ---- numeric facts -------------------------------------------------
    def lohi(self, i):
        b = self.bnd.get(i)
        if b is not None:
            return b
        a = ATOMS[i]
        return (a.lo, a.hi)

    def norm(self, L):
        if not L[1]:
            return L
        k = L[0]; out = None
        for n, (i, c) in enumerate(L[1]):
            b = self.bnd.get(i)
            if b is not None and b[0] == b[1]:
                if out is None:
                    out = list(L[1][:n])
                k += c * b[0]
            elif out is not None:
                out.append((i, c))
        if out is None:
            return L
        return (k, tuple(out))

    def ub(self, L):
        s = L[0]
        for i, c in L[1]:
            b = self.bnd.get(i)
            if b is None:
                a = ATOMS[i]
                b = (a.lo, a.hi)
            s += c * (b[1] if c > 0 else b[0])
        return s

    def lb(self, L):
        return -self.ub(neg(L))

    def le0(self, L, d=3):
        """is L <= 0 implied?"""
        u = self.ub(L)
        if u <= 0:
            return True
        if d == 0 or not self.ineq:
            return False
        ld = dict(L[1])
        for f in self.ineq:
            r = 0
            for i, c in f[1]:
                lc = ld.get(i)
                if lc is not None and (lc > 0) == (c > 0):
                    if lc % c == 0:
                        r = lc // c
                    elif r == 0:
                        r = 0
                    if r:
                        break
            if r > 0:
                L2 = sub(L, scale(f, r))
                if len(L2[1]) <= len(L[1]) + 1 and self.le0(L2, d - 1):
                    return True
        return False

    def is0(self, L):
        L = self.norm(L)
        if not L[1]:
            return L[0] == 0
        return self.le0(L) and self.le0(neg(L))

    def add_le(self, L):
        L = self.norm(L)
        if not L[1]:
            return L[0] <= 0
        if len(L[1]) == 1:
            i, c = L[1][0]
            lo, hi = self.lohi(i)
            if c > 0:
                n = (-L[0]) // c
                if n >= hi:
                    return True
                hi = n
            else:
                n = -((-L[0]) // (-c)) if False else ceil_div(L[0], -c)
                if n <= lo:
                    return True
                lo = n
            return self._setb(i, lo, hi)
        if self.ub(L) <= 0:
            return True
        if self.le0((1 - L[0], tuple((i, -c) for i, c in L[1])), 2):
            return False
        g = 0
        for i, c in L[1]:
            g = gcd(g, c)
        if g > 1:
            L = (-((-L[0]) // g), tuple((i, c // g) for i, c in L[1]))
        # keep only the tightest constant for the same linear part
        for f in self.ineq:
            if f[1] == L[1]:
                if f[0] >= L[0]:
                    return True
                del self.ineq[f]
                break
        self.ineq[L] = True
        # bound propagation, one pass
        for i, c in L[1]:
            rest = (L[0], tuple(x for x in L[1] if x[0] != i))
            m = self.lb(rest)          # c*a <= -rest <= -m
            if m == -INF:
                continue
            lo, hi = self.lohi(i)
            if c > 0:
                n = (-m) // c
                if n < hi and not self._setb(i, lo, n):
                    return False
            else:
                n = ceil_div(m, -c)
                if n > lo and not self._setb(i, n, hi):
                    return False
        return True

    def _setb(self, i, lo, hi):
        a = V(ATOMS[i])
        while self.neq:
            if lo == hi and (addc(a, -lo) in self.neq):
                return False
            if lo != -INF and lo < hi and addc(a, -lo) in self.neq:
                lo += 1
            elif hi != INF and lo < hi and addc(a, -hi) in self.neq:
                hi -= 1
            else:
                break
        if lo > hi:
            return False
        self.bnd[i] = (lo, hi)
        at = ATOMS[i]
        if at.kind == "CMP" and lo == hi:
            if not self.assume(at.args if lo == 1 else negate(at.args)):
                return False
        if self.ineq:
            for f in list(self.ineq):
                if any(j == i for j, _ in f[1]):
                    if self.lb(f) > 0:
                        return False
        return True

    def add_ne(self, L):
        L = self.norm(L)
        if not L[1]:
            return L[0] != 0
        if L[1][0][1] < 0:
            L = neg(L)
        if len(L[1]) == 1:
            i, c = L[1][0]
            if L[0] % c:
                return True
            v = -L[0] // c
            lo, hi = self.lohi(i)
            if v < lo or v > hi:
                return True
            if lo == hi:
                return False
            self.neq[(-v, ((i, 1),))] = True
            return self._setb(i, lo, hi)
        if self.le0(L, 2) and self.le0(neg(L), 2):
            return False
        if self.le0(L, 1) :
            if not self.add_le(addc(L, 1)):
                return False
        elif self.le0(neg(L), 1):
            if not self.add_le(addc(neg(L), 1)):
                return False
        self.neq[L] = True
        return True

    def assume(self, c):
        p, L = c
        if p == "le":
            return self.add_le(L)
        if p == "eq":
            v = self.ev(c)
            if v is not None:
                return v
            L = self.norm(L)
            return self.add_le(L) and self.add_le(neg(L))
        v = self.ev(c)
        if v is not None:
            return v
        return self.add_ne(L)

    def nonnull(self, a):
        if a.kind in ("A", "H", "G", "FN"):
            return True
        return self.lohi(a.id)[0] >= 1

    def ev(self, c):
        p, L = c
        L = self.norm(L)
        if not L[1]:
            if p == "le":
                return L[0] <= 0
            return (L[0] == 0) == (p == "eq")
        if p == "le":
            if self.le0(L):
                return True
            if self.le0((1 - L[0], tuple((i, -k) for i, k in L[1])), 2):
                return False
            return None
        # eq / ne
        r = None
        N = L if L[1][0][1] > 0 else neg(L)
        if N in self.neq:
            r = False
        else:
            ptrs = [(ATOMS[i], k) for i, k in L[1] if ATOMS[i].ptr]
            if len(ptrs) == 1 and abs(ptrs[0][1]) == 1 and (len(L[1]) > 1 or (L[0] == 0 and -ptrs[0][0].id in self.seen) or self.nonnull(ptrs[0][0]) and
                                                           (L[0] == 0 or ATOMS[L[1][0][0]].kind in ("A", "H", "G", "FN"))):
                r = False       # an object's address, or the result of pointer arithmetic, is never null
            elif len(ptrs) == 2 and ptrs[0][1] + ptrs[1][1] == 0:
                a, b = ptrs[0][0], ptrs[1][0]
                fa, fb = a.kind in ("A", "H", "G", "FN"), b.kind in ("A", "H", "G", "FN")
                if (fa and fb) or (fa and a.kind in ("A", "H") and b.inp) or (fb and b.kind in ("A", "H") and a.inp):
                    r = False
        if r is None:
            if self.le0(addc(L, 1), 2) or self.le0((1 - L[0], tuple((i, -k) for i, k in L[1])), 2):
                r = False
            elif self.le0(L, 2) and self.le0(neg(L), 2):
                r = True
        if r is None:
            return None
        return r if p == "eq" else not r

    # ---- memory --------------------------------------------------------
    def wobj(self, b):
        o = self.mem.get(b)
        if o is None:
            o = Obj(default_kind(b))
            self.mem[b] = o
            self.own.add(b)
            return o
        if b not in self.own:
            o = o.copy()
            self.mem[b] = o
            self.own.add(b)
        return o

def ceil_div(a, b):
    return -((-a) // b)

def negate(c):
    p, L = c
    if p == "le":
        return ("le", (1 - L[0], tuple((i, -k) for i, k in L[1])))
    return ("ne" if p == "eq" else "eq", L)

GLOBAL_CONST = {}

def default_kind(b):
    a = ATOMS[b]
    if a.kind == "A":
        return ("u",)
    return ("E", V(a), ZERO)

def split(L):
    """address -> (base atom id, offset form)"""
    best = None
    rank = 9
    for i, c in L[1]:
        if c == 1:
            a = ATOMS[i]
            if a.ptr:
                r = 0 if a.kind in ("A", "H", "G", "FN") else 1
                if r < rank:
                    best = i; rank = r
    if best is None:
        if not L[1]:
            return None, L
        raw = mk("RAW", ((0, L[1]),), 1, INF, True)
        return raw.id, (L[0], ())
    return best, (L[0], tuple(x for x in L[1] if x[0] != best))
