"""Hash-consed terms.  A value is a linear form  k + sum(c_i * atom_i)  stored as the tuple
(k, ((atom_id, c), ...)) with atoms sorted by id.  Atoms are opaque quantities."""
INF = float("inf")

class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "ptr", "tag", "inp", "sgn")
    def __repr__(self):
        return show_atom(self)

ATOMS = []
_TAB = {}
TERM_TABLE = _TAB

def mk(kind, args, lo=-INF, hi=INF, ptr=False, tag=None, inp=None):
    key = (kind, args)
    a = _TAB.get(key)
    if a is not None:
        if a.tag is None and tag is not None:
            a.tag = tag
        if kind == "M" and a.lo == -INF and a.hi == INF and (lo != -INF or hi != INF):
            a.lo, a.hi = lo, hi
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind = kind
    a.args = args
    a.lo = lo
    a.hi = hi
    a.ptr = ptr
    a.tag = tag
    a.inp = inp if inp is not None else _inp(kind, args)
    ATOMS.append(a)
    _TAB[key] = a
    return a

def _inp(kind, args):
    if kind in ("P", "G", "FN"):
        return True
    if kind in ("M", "OP", "CMP", "SL"):
        for x in args:
            if type(x) is tuple and len(x) == 2 and type(x[1]) is tuple and not lin_inp(x):
                return False
        return True
    if kind == "D":      # a piece of a recorded stream is an input like memory is
        t = ATOMS[args[0]]
        return t.kind == "OP" and t.inp and lin_inp(args[1])
    return False

def is_lin(x):
    return type(x) is tuple and len(x) == 2 and type(x[1]) is tuple and not isinstance(x[0], (str, tuple))

ZERO = (0, ())
ONE = (1, ())

def C(k):
    return (k, ())

def V(a):
    return (0, ((a.id, 1),))

def is_const(l):
    return not l[1]

def add(a, b):
    if not a[1]:
        return (a[0] + b[0], b[1])
    if not b[1]:
        return (a[0] + b[0], a[1])
    d = dict(a[1])
    for i, c in b[1]:
        n = d.get(i, 0) + c
        if n:
            d[i] = n
        else:
            del d[i]
    return (a[0] + b[0], tuple(sorted(d.items())))

def scale(a, s):
    if s == 0:
        return ZERO
    if s == 1:
        return a
    return (a[0] * s, tuple((i, c * s) for i, c in a[1]))

def neg(a):
    return (-a[0], tuple((i, -c) for i, c in a[1]))

def sub(a, b):
    if not b[1]:
        return (a[0] - b[0], a[1])
    return add(a, neg(b))

def addc(a, k):
    return (a[0] + k, a[1])

def lin_inp(l):
    for i, _ in l[1]:
        if not ATOMS[i].inp:
            return False
    return True

def single(l):
    """the atom if the form is exactly one atom"""
    if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1:
        return ATOMS[l[1][0][0]]
    return None

_shown = {}
def show_atom(a, depth=0):
    k = a.kind
    if depth > 4:
        return "~"
    if k == "P":
        return "arg%d" % a.args[-1]
    if k == "M":
        t = ("{%s}" % a.tag) if a.tag else ""
        return "*(%s)%s" % (show(a.args[0], depth + 1), t)
    if k == "G":
        return "&" + a.args[0]
    if k == "FN":
        return a.args[0]
    if k == "OP":
        return "%s(%s)" % (a.args[0], ",".join(show(x, depth + 1) if is_lin(x) else str(x) for x in a.args[1:]))
    if k == "CMP":
        return "(%s %s)" % (show(a.args[1], depth + 1), {"le": "<=0", "eq": "==0", "ne": "!=0"}[a.args[0]])
    if k == "A":
        return "&local:%s" % (a.args[2] or a.args[1])
    if k == "H":
        return "heap#%d" % a.id
    if k == "D":
        return "data[%s+%s:%s]" % (show_atom(ATOMS[a.args[0]], depth + 1), show(a.args[1], depth + 1), a.args[2])
    if k == "SL":
        return "strlen(%s)" % show(a.args[0], depth + 1)
    return "%s#%d" % (k, a.id)

def show(l, depth=0):
    if l is None:
        return "None"
    out = []
    for i, c in l[1]:
        s = show_atom(ATOMS[i], depth)
        if c == 1:
            out.append("+" + s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append("%+d*%s" % (c, s))
    if l[0] or not out:
        out.append("%+d" % l[0] if out else "%d" % l[0])
    r = "".join(out)
    return r[1:] if r.startswith("+") else r
