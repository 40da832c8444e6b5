"""Values of terms under an assignment.  A summary says what a function returns and stores as terms over its inputs; to
compare it with what it should return, both are valued under many assignments of the inputs.  The code itself is never run:
only the terms the analysis derived for all its paths are."""
import random
from terms import *
from engine import CUT

class Unknown(Exception):
    pass

class Undefined(Unknown):
    """memory that nothing was stored in"""

NEVER_NULL = ("sqfs_block.data", "sqfs.sb", "sqfs.fd")       # of a block that was loaded, of an image that is open
def M64(v):
    return v & ((1 << 64) - 1)

class Env:
    """one assignment: every byte of memory and of the recorded streams, and every argument, drawn lazily"""
    def __init__(self, seed, style=0):
        self.r = random.Random(seed * 7919 + style)
        self.style = style
        self.bytes = {}      # address -> byte
        self.data = {}       # (stream, offset) -> byte
        self.leaf = {}       # atom id -> value
        self.free = {}       # unknown atoms: not valued
        self.memo = {}
        self.n = 0
    def rb(self):
        s = self.style
        if s == 1:
            return self.r.choice((0, 0xff))
        if s == 2:
            return self.r.choice((0, 0, 0, 1, 0x7f, 0x80, 0xff))
        if s == 3:
            return self.r.choice((0x80, 0xff, 0xfe))
        return self.r.randrange(256)
    def pointer(self):
        self.n += 1
        return (self.n << 36) + (self.r.randrange(1 << 20) << 12)
    def mem(self, addr, n, ptr=False):
        k = [M64(addr + i) for i in range(n)]
        if ptr and k[0] not in self.bytes:
            v = self.pointer()
            for i, a in enumerate(k):
                self.bytes[a] = (v >> (8 * i)) & 255
        return sum(self.byte(a) << (8 * i) for i, a in enumerate(k))
    def byte(self, a):
        v = self.bytes.get(a)
        if v is None:
            v = self.bytes[a] = self.rb()
        return v
    def put(self, addr, n, v):
        for i in range(n):
            self.bytes[M64(addr + i)] = (v >> (8 * i)) & 255
    def stream(self, tok, off, n):
        v = 0
        for i in range(n):
            b = self.data.get((tok, off + i))
            if b is None:
                b = self.data[(tok, off + i)] = self.rb()
            v |= b << (8 * i)
        return v
    def putdata(self, tok, off, n, v):
        for i in range(n):
            self.data[(tok, off + i)] = (v >> (8 * i)) & 255

    def ufun(self, name, args):
        """an unknown function to objects: equal arguments, equal object"""
        k = (name,) + tuple(M64(x) for x in args)
        if k not in self.free:
            self.free[k] = self.pointer()
        return self.free[k]
    def draw(self, name, a=None):
        k = ("draw", name)
        if k not in self.free:
            self.free[k] = self.r.randrange(a.lo, min(a.hi, a.lo + (1 << 40)) + 1) if a is not None else self.r.randrange(1 << 20)
        return self.free[k]
    def ulen(self, name, args):
        k = (name,) + tuple(M64(x) for x in args)
        if k not in self.free:
            self.free[k] = self.r.randrange(3, 8195)
        return self.free[k]

    # ---- memory after an exit
    def after(self, x, addr, n):
        """the n bytes at an address (a term) when the exit was taken"""
        from state import split, default_kind
        b, off = split(addr)
        if b is None:
            raise Unknown(show(addr))
        o = x.mem.get(b)
        at = self.val(off)
        v = 0
        for i in range(n):
            v |= self.byte_after(b, o, at + i, default_kind) << (8 * i)
        return v
    def byte_after(self, b, o, at, default_kind):
        if o is None:
            return self.content(default_kind(b), at)
        for co, (size, val) in o.cells.items():
            if isinstance(co[0], str):
                continue
            c = self.val(co)
            if c <= at < c + size:
                return (self.val(val) >> (8 * (at - c))) & 255
        for off, size, kind in reversed(o.ovl):
            lo = self.val(off)
            if at < lo:
                continue
            if size is None:
                raise Unknown("a region of unknown extent")
            if at < lo + self.val(size):
                return self.content(kind, at)
        return self.content(o.dflt, at)
    def content(self, k, at):
        if k[0] == "z":
            return 0
        if k[0] == "u":
            raise Undefined("uninitialised memory")
        if k[0] == "E":
            a = self.val(k[1]) + at - self.val(k[2])
            return self.mem(a, 1)
        if k[0] == "D":
            return self.stream(self.token(ATOMS[k[1]]), at - self.val(k[2]), 1)
        raise Unknown("content %s" % k[0])
    def value(self, x, t):
        if t[0] == "truth":
            return int(M64(self.value(x, t[1])) != 0)
        if t[0] == "map":
            return t[2](self.value(x, t[1]))
        if t[0] == "calc":
            return t[1](*[self.value(x, u) for u in t[2:]])
        return self.after(x, t[1], t[2]) if t[0] == "mem" else self.val(t)

    # ---- terms
    def val(self, L):
        v = L[0]
        for i, c in L[1]:
            v += c * self.atom(ATOMS[i])
        return v
    def atom(self, a):
        v = self.memo.get(a.id)
        if v is None:
            v = self.memo[a.id] = self._atom(a)
        return v
    def sized(self, v, a, n):
        """an n-byte pattern as the engine represents it"""
        if a.lo != -INF and a.lo < 0 or (a.lo == -INF and a.hi != INF and a.hi < (1 << (8 * n)) - 1):
            h = 1 << (8 * n - 1)
            return v - (1 << (8 * n)) if v >= h else v
        return v
    def _atom(self, a):
        k = a.kind
        if a.id in self.leaf:
            return self.leaf[a.id]
        if k == "P" and not a.ptr:
            w = 64
            if a.hi != INF:
                w = int(a.hi).bit_length() + (1 if a.lo < 0 else 0)
            v = self.leaf[a.id] = self.sized(sum(self.rb() << (8 * i) for i in range(max(1, w // 8))), a, max(1, w // 8))
            return v
        if k in ("P", "G", "FN", "H", "A"):
            v = self.leaf[a.id] = self.pointer()
            return v
        if k == "M":
            return self.sized(self.mem(self.val(a.args[0]), a.args[1], a.ptr), a, a.args[1])
        if k == "D":
            return self.sized(self.stream(self.token(ATOMS[a.args[0]]), self.val(a.args[1]), a.args[2]), a, a.args[2])
        if k == "CMP":
            v = self.val(a.args[1])
            return int({"le": v <= 0, "eq": v == 0, "ne": v != 0}[a.args[0]])
        if k == "OP":
            return self.op(a)
        raise (Undefined if k == "U" else Unknown)(show_atom(a))
    # ---- moving an assignment onto a path
    def pin(self):
        """what is drawn so far stays"""
        self.pinned = (set(self.bytes), set(self.data), set(self.leaf), set(self.free))
    def assign(self, a, v):
        """give an atom a value, unless that would change what is pinned"""
        B, D, P, F = self.pinned
        k = a.kind; g = a.args
        if a.id in P:
            return False
        if k == "P" and not a.ptr:
            self.leaf[a.id] = v
        elif k == "M":
            at = self.val(g[0])
            if a.ptr and (v or a.tag in NEVER_NULL) or any(M64(at + i) in B for i in range(g[1])):
                return False
            self.put(at, g[1], v)
        elif k == "D":
            t = self.token(ATOMS[g[0]]); at = self.val(g[1])
            if any((t, at + i) in D for i in range(g[2])):
                return False
            self.putdata(t, at, g[2], v)
        elif k == "OP" and g[0] == "draw":
            if ("draw", g[1]) in F:
                return False
            self.free[("draw", g[1])] = v
        elif k == "OP" and g[0] in ("zx", "tr", "sx", "slice", "and", "shr"):
            sub_ = g[2] if g[0] == "slice" else g[2] if g[0] in ("zx", "tr", "sx") else g[1]
            if not is_lin(sub_) or len(sub_[1]) != 1 or sub_[1][0][1] != 1:
                return False
            sh = 0
            if g[0] == "slice":
                sh = g[1]
            elif g[0] == "shr":
                if not is_lin(g[2]) or g[2][1]:
                    return False
                sh = g[2][0]
            return self.assign(ATOMS[sub_[1][0][0]], (v << sh) - sub_[0])
        else:
            return False
        self.memo = {}
        return True
    def steer(self, x, eq=None):
        """try to satisfy the facts of an exit (and an equation)"""
        r = self.r
        for _ in range(3):
            ok = True
            if eq is not None:
                try:
                    v = self.val(eq)
                    for i, c in (eq[1] if v else ()):
                        n = self.atom(ATOMS[i]) - c * v
                        if c in (1, -1) and ATOMS[i].lo <= n <= ATOMS[i].hi and self.assign(ATOMS[i], n):
                            break
                except Unknown:
                    pass
            for i, (lo, hi) in sorted(x.bnd.items()):
                a = ATOMS[i]
                try:
                    v = self.atom(a)
                    if lo <= v <= hi:
                        continue
                    ok = False
                    lo = max(lo, a.lo, -(1 << 62)); hi = min(hi, a.hi, (1 << 62))
                    if lo <= hi:
                        self.assign(a, r.choice((lo, hi, lo + r.randrange(min(hi - lo, 1 << 40) + 1), lo + r.randrange(min(hi - lo, 16) + 1))))
                except Unknown:
                    pass
            for q, d in [(q, 0) for q in x.ineq] + [(q, 1) for q in x.neq]:
                try:
                    v = self.val(q)
                    if not (v > 0 if not d else M64(v) == 0):
                        continue
                    ok = False
                    ts = list(q[1]); r.shuffle(ts)
                    for i, c in ts:
                        if c not in (1, -1):
                            continue
                        a = ATOMS[i]
                        n = self.atom(a) - c * (v + r.choice((0, 0, 1, r.randrange(64)))) if not d else self.atom(a) + r.choice((1, 2, 3, 1 << 20))
                        if a.lo <= n <= a.hi and self.assign(a, n):
                            break
                except Unknown:
                    pass
            if ok:
                break
    def token(self, a):
        if a.kind == "OP" and a.args[0] == "stream":
            return ("stream", M64(self.val(a.args[1])))
        if a.kind == "OP" and a.args[0] == "table":
            return ("table", M64(self.val(a.args[1])), M64(self.val(a.args[2])))
        if a.kind == "OP" and all(is_lin(x) for x in a.args[1:]):
            return (a.args[0],) + tuple(M64(self.val(x)) for x in a.args[1:])
        raise Unknown(show_atom(a))
    def op(self, a):
        o, g = a.args[0], a.args[1:]
        f = lambda x: self.val(x) if is_lin(x) else x
        if o in ("zx", "tr", "sx"):
            w = g[0]; v = f(g[1]) & ((1 << w) - 1)
            return v - (1 << w) if o == "sx" and v >= 1 << (w - 1) else v
        if o == "slice":
            return (f(g[2]) >> g[0]) & ((1 << g[1]) - 1)
        if o in ("mdblk", "dblk", "rblk", "slot"):
            v = [f(x) for x in g]
            if o == "dblk":
                v[2] &= 0xffffffff
            return self.ufun(o, v)
        if o == "mdlen":
            return self.ulen(o, [f(x) for x in g])
        if o == "draw":
            return self.draw(g[0], a)
        x = f(g[0]); y = f(g[1]) if len(g) > 1 else 0
        if o == "eqbig":
            return int(M64(x) == y)
        if o == "makedev":
            return makedev(x, y)
        if o == "and" or o == "land":
            return x & y
        if o == "or":
            return x | y
        if o == "xor":
            return x ^ y
        if o in ("shr", "shrv"):
            return M64(x) >> y if 0 <= y < 64 else 0
        if o == "ashr":
            return x >> y if 0 <= y < 64 else 0
        if o == "shl":
            return x << y if 0 <= y < 64 else 0
        if o == "mul":
            return x * y
        if o in ("div", "rem"):
            if not y:
                raise Unknown("division by zero")
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q if o == "div" else x - q * y
        raise Unknown(o)

def makedev(x, y):
    return (y & 0xff) | ((x & 0xfff) << 8) | ((y >> 8 & 0xffffff) << 20) | ((x >> 12 & 0xfffff) << 44)

def holds(env, x):
    """do the facts of an exit hold?  True, False, or None when some cannot be valued and none fails"""
    r = True
    def t(f):
        nonlocal r
        try:
            if not f():
                return False
        except Unknown:
            r = None
        return True
    for i, (lo, hi) in x.bnd.items():
        if not t(lambda: lo <= env.atom(ATOMS[i]) <= hi or lo == hi and M64(env.atom(ATOMS[i]) - lo) == 0):
            return False
    for q in x.ineq:
        if not t(lambda: env.val(q) <= 0):
            return False
    for n in x.neq:
        if not t(lambda: M64(env.val(n)) != 0):
            return False
    return r

def state_of(x):
    """an exit as a state whose memory can be read"""
    from state import St
    s = getattr(x, "_st", None)
    if s is None:
        s = St()
        s.mem = dict(x.mem); s.bnd = dict(x.bnd)
        s.ineq = {f: True for f in x.ineq}; s.neq = {f: True for f in x.neq}
        try:
            x._st = s
        except AttributeError:
            pass
    return s

def bits(v, n):
    return v & ((1 << (8 * n)) - 1)

def describe(e, x, t):
    while t[0] in ("truth", "map"):
        t = t[1]
    if t[0] == "calc":
        return ", ".join(describe(e, x, y) for y in t[2:])
    return show(e.read(state_of(x), t[1], t[2])) if t[0] == "mem" else show(t)

def equations(x):
    """the comparisons that values of an exit depend on"""
    seen = set(); out = []
    todo = [v for o in x.mem.values() for _, v in o.cells.values() if v[1]] + ([x.ret] if x.ret else [])
    while todo:
        v = todo.pop()
        for i, c in v[1]:
            if i in seen:
                continue
            seen.add(i)
            a = ATOMS[i]
            if a.kind == "CMP":
                out.append(a.args[1])
            for g in a.args if a.kind in ("CMP", "OP") else ():
                if is_lin(g):
                    todo.append(g)
    return out

class Judge:
    """compares what the exits of a summary do with what they should do, under many assignments"""
    def __init__(self, ctx, e, n=24):
        self.ctx = ctx; self.e = e; self.n = n
        self.compared = 0; self.unresolved = 0; self.unres = {}; self.what = None; self.cases = 0; self.cut = 0; self.cuts = {}
    def envs(self, setup, exits=()):
        for seed in range(self.n):
            env = Env(seed + 1, (0, 0, 1, 2, 3)[seed % 5])
            if setup(env) is not False:
                yield env
        # and some on each path
        xs = [x for x in exits if CUT not in x.marks and (x.bnd or x.ineq or x.neq)]
        for k in range(max(2, self.n // 20)):
            for n, x in enumerate(xs[:48]):
                env = Env(10007 * (k + 1) + n, (0, 2, 0, 1, 3)[k % 5])
                if setup(env) is not False:
                    env.pin(); env.steer(x); env.memo = {}
                    yield env
        # and some at which a comparison in a value comes out equal
        for n, x in enumerate([x for x in exits if CUT not in x.marks][:24]):
            for m, q in enumerate(equations(x)[:6]):
                env = Env(20011 + 97 * n + m, 0)
                if setup(env) is not False:
                    env.pin(); env.steer(x, q); env.memo = {}
                    yield env
    def succ(self, env, exits):
        """the exits an assignment can take"""
        out = []
        for x in exits:
            h = holds(env, x)
            if h is not False:
                if CUT in x.marks:
                    # a loop may go on beyond what was looked at
                    self.cut += 1; self.cuts[self.what] = self.cuts.get(self.what, 0) + 1
                    return None
                out.append((x, h))
        return out
    def outputs(self, exits, setup, wanted, report, must=True):
        """wanted(env) -> [(name, size, term(x), value)]: each must equal the value on the exit taken.  report(name, x, got, want)"""
        bad = {}; taken = False; cases = 0
        for env in self.envs(setup, exits):
            cases += 1
            xs = self.succ(env, exits)
            if xs is None:
                taken = True; continue
            if not xs:
                continue
            taken = True
            for name, size, term, want in wanted(env):
                wrong = None
                for x, h in xs:
                    try:
                        t = term(x)
                        if t is None:
                            continue        # not an exit this is about
                        got = bits(env.value(x, t), size)
                    except Undefined:
                        wrong = (name, x, None, bits(want, size), "undefined")
                        continue
                    except Unknown as ex:
                        wrong = None; self.unresolved += 1
                        self.unres.setdefault((self.what, name), set()).add("%s %s" % (h, ex))
                        break
                    self.compared += 1
                    if got == bits(want, size):
                        wrong = None
                        break
                    wrong = (name, x, got, bits(want, size), describe(self.e, x, t))
                if wrong and name not in bad:
                    bad[name] = wrong
        self.cases += cases
        for w in bad.values():
            report(*w)
        return taken or not cases
