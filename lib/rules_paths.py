"""C33: a path names what its components say, a link names what its text says."""
import itertools, time
from rules_behaviour import *
from rules_extract import Lab

SLASH, DOT = C(47), C(46)
LNK, DIR, REG = 0xA1FF, 0x41ED, 0x81A4
LOWER = ("sqfs_dir_lookup", "sqfs_inode_get", "sqfs_md_read", "squash_readlink_inode")

def letter(k):
    """some byte of a name: neither a separator, nor a dot, nor the end"""
    return V(mk("OP", ("draw", "letter", k), 97, 122))

def bytes_of(shape):
    """the text of a shape: '/' and '.' are themselves, every other sign an unknown letter, the same for the same sign"""
    return tuple(SLASH if c == "/" else DOT if c == "." else letter(c) for c in shape)

def distinct(st, *shapes):
    """letters of different signs are different bytes"""
    used = sorted({c for t in shapes if t for c in t if c not in "/."})
    for p, q in itertools.combinations(used, 2):
        st.add_ne(sub(letter(p), letter(q)))

def parts(text):
    out = []; cur = []
    for c in text + (SLASH,):
        if c == SLASH:
            if cur and cur != [DOT]:
                out.append(tuple(cur))
            cur = []
        else:
            cur.append(c)
    return out

def named(text):
    """the components that count; None for a path that climbs above the root"""
    out = []
    for c in parts(text):
        if c == (DOT, DOT):
            if not out:
                return None
            out.pop()
        else:
            out.append(c)
    return out

def show(text):
    n = {}
    return "".join(chr(c[0]) if not c[1] else single(c).args[2] if single(c) is not None and single(c).kind == "OP" else "?" for c in text) if text is not None else "?"

class Texts(Models):
    """text functions on texts whose every byte is decided: a separator, a dot, a letter or the end"""
    def entries(self, st):
        return sorted((m for m in st.marks if m[0] == "log"), key=lambda m: m[1])
    def log(self, st, *a):
        st.marks = st.marks | frozenset([("log", len(self.entries(st))) + a])
    def text(self, e, st, addr, cap=80):
        out = []
        b, off = split(st.norm(addr))
        if b is None:
            return None
        if ATOMS[b].kind == "G":
            g = e.p.globals.get(ATOMS[b].args[0])
            if g is not None and g["const"] and not g["decl"] and not off[1]:
                d = {c[0]: int(c[2][1]) for c in g.get("init", ()) if c[1] == 1}
                n = off[0]
                while d.get(n):
                    out.append(C(d[n])); n += 1
                return tuple(out)
        for i in range(cap):
            v = st.norm(e.read(st, addc(addr, i), 1))
            if v == ZERO:
                return tuple(out)
            if v[1] and st.lb(v) <= 0 or not v[1] and not 0 < v[0] < 128 or v[1] and ATOMS[v[1][0][0]].kind != "OP":
                return None
            out.append(v)
        return None
    def put(self, e, st, addr, text):
        for i, c in enumerate(tuple(text) + (ZERO,)):
            e.write(st, addc(addr, i), 1, c)
    def order(self, st, p, q, n=None):
        """-1, 0, 1 or None (not decided)"""
        p = p + (ZERO,); q = q + (ZERO,)
        for i in range(min(len(p), len(q)) if n is None else min(len(p), len(q), n)):
            r = st.ev(("eq", sub(p[i], q[i])))
            if r is None:
                return None
            if not r:
                return 1 if st.le0(sub(q[i], p[i])) else -1 if st.le0(sub(p[i], q[i])) else "ne"
        return 0
    def x_strlen(self, e, st, ins, args):
        t = self.text(e, st, args[0])
        if t is None:
            return super().x_strlen(e, st, ins, args)
        self.ret(st, ins, C(len(t)))
    def cmp(self, e, st, ins, args):
        nm = ins["callee"][1]
        n = st.norm(args[2]) if len(args) > 2 else None
        if nm in ("strcmp", "strncmp", "memcmp") and (n is None or not n[1]):
            p = self.text(e, st, args[0]); q = self.text(e, st, args[1])
            if nm == "memcmp":
                p = self.raw(e, st, args[0], n[0]); q = self.raw(e, st, args[1], n[0])
            if p is not None and q is not None:
                r = self.order(st, p, q, n[0] if n is not None else None)
                if r is not None:
                    v = C(r) if r != "ne" else self.F(e, ins, "differ", -255, 255)
                    if r == "ne":
                        st.add_ne(v)
                    self.ret(st, ins, v); return None
        return super().cmp(e, st, ins, args)
    x_strcmp = x_strncmp = x_memcmp = cmp
    def raw(self, e, st, addr, n):
        return tuple(st.norm(e.read(st, addc(addr, i), 1)) for i in range(n)) if n < 80 else None
    def find(self, e, st, ins, args):
        nm = ins["callee"][1]
        p = self.text(e, st, args[0])
        if p is not None and nm in ("strchr", "strrchr"):
            c = st.norm(args[1])
            at = [i for i, x in enumerate(p + (ZERO,)) if st.ev(("eq", sub(x, c))) is not False]
            if all(st.ev(("eq", sub((p + (ZERO,))[i], c))) for i in at):
                self.ret(st, ins, ZERO if not at else addc(args[0], at[0] if nm == "strchr" else at[-1]))
                return None
        if p is not None and nm == "strstr":
            q = self.text(e, st, args[1])
            if q is not None:
                for i in range(len(p) - len(q) + 1):
                    r = self.order(st, p[i:i + len(q)], q)
                    if r is None:
                        break
                    if r == 0:
                        self.ret(st, ins, addc(args[0], i)); return None
                else:
                    self.ret(st, ins, ZERO); return None
        return super().find(e, st, ins, args)
    x_strstr = x_strchr = x_strrchr = find
    def span(self, e, st, ins, args):
        nm = ins["callee"][1]
        p = self.text(e, st, args[0]); q = self.text(e, st, args[1])
        if p is None or q is None:
            return super().extern(e, st, ins, nm, args)
        k = 0
        for c in p:
            r = [st.ev(("eq", sub(c, d))) for d in q]
            if None in r and True not in r:
                return super().extern(e, st, ins, nm, args)
            if (True in r) != (nm == "strspn"):
                break
            k += 1
        if nm == "strpbrk":
            self.ret(st, ins, addc(args[0], k) if k < len(p) else ZERO)
        else:
            self.ret(st, ins, C(k))
    def extern(self, e, st, ins, name, args):
        if name in ("strspn", "strcspn", "strpbrk"):
            return self.span(e, st, ins, args)
        return super().extern(e, st, ins, name, args)
    def move(self, e, st, ins, args, base):
        n = st.norm(args[2])
        if n[1] or not 0 < n[0] < 80:
            return base(e, st, ins, args)
        v = self.raw(e, st, args[1], n[0])
        if not e.deref(st, args[0], ins, "write") or not e.deref(st, args[1], ins, "read"):
            return []
        for i, c in enumerate(v):
            e.write(st, addc(args[0], i), 1, c)
        self.ret(st, ins, args[0])
    def x_memmove(self, e, st, ins, args):
        return self.move(e, st, ins, args, super().x_memmove)
    def x_memcpy(self, e, st, ins, args):
        return self.move(e, st, ins, args, super().x_memcpy)
    def intrinsic(self, e, st, ins, name, args):
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            n = st.norm(args[2])
            if not n[1] and 0 < n[0] < 80:
                return self.move(e, st, ins, args, None)
        return super().intrinsic(e, st, ins, name, args)
    def x_strcpy(self, e, st, ins, args):
        t = self.text(e, st, args[1])
        if t is None:
            return super().x_strcpy(e, st, ins, args)
        if not e.deref(st, args[0], ins, "write"):
            return []
        self.put(e, st, args[0], t)
        self.ret(st, ins, args[0])
    def x_strcat(self, e, st, ins, args):
        t = self.text(e, st, args[1]); d = self.text(e, st, args[0])
        if t is None or d is None:
            return super().x_strcat(e, st, ins, args)
        self.put(e, st, addc(args[0], len(d)), t)
        self.ret(st, ins, args[0])
    def x_strncpy(self, e, st, ins, args):
        t = self.text(e, st, args[1]); n = st.norm(args[2])
        if t is None or n[1] or not 0 < n[0] < 80:
            return super().x_strncpy(e, st, ins, args)
        for i in range(n[0]):
            e.write(st, addc(args[0], i), 1, t[i] if i < len(t) else ZERO)
        self.ret(st, ins, args[0])
    def x_strdup(self, e, st, ins, args):
        t = self.text(e, st, args[0])
        r = super().x_strdup(e, st, ins, args)
        if t is not None and r:
            s = r[0]
            self.put(e, s, s.env[ins["i"]] if ins["t"] != "void" else ZERO, t)
        return r
    def x_strndup(self, e, st, ins, args):
        t = self.text(e, st, args[0]); n = st.norm(args[1])
        r = super().x_strndup(e, st, ins, args)
        if t is not None and r and not n[1]:
            self.put(e, r[0], r[0].env[ins["i"]], t[:n[0]])
        return r

class Steps(Texts):
    """what lies below the resolution of a path: a name is found, absent, or the lookup fails; the same for what reads an inode,
    follows a link or reads a link's text"""
    def __init__(self):
        super().__init__()
        self.nofail = True; self.links = (); self.walkers = {}; self.followers = {}; self.only = None
    def fails(self, e, st, ins, *a):
        s = st.copy()
        v = self.F(e, ins, "err", 1, 64)
        self.ret(s, ins, v); self.seterr(e, s, ins)
        self.log(s, "fails", *a)
        return s
    def mode(self, e, st, inode, m):
        o, z = self.L.off("sqfs_inode", "base")[0], self.L.off("sqfs_inode", "base.mode")
        n = self.L.ctx.prog.dis["sqfs_inode"]["size"]
        t = mk("F", (e.ctx, "inode", e.stamp, len(self.entries(st))))
        e.write_region(st, inode, C(n), ("D", t.id, ZERO))
        e.write(st, addc(inode, z[0]), z[1], C(m))
    def x_sqfs_dir_lookup(self, e, st, ins, args):
        fs, inode, name, n, entry, found = args[:6]
        n = st.norm(n)
        nm = self.raw(e, st, name, n[0]) if not n[1] else None
        bad = self.fails(e, st, ins, "look", inode, nm)
        no = st.copy()
        e.write(no, found, 2, ZERO); self.ret(no, ins, ZERO); self.log(no, "look", inode, nm, None)
        at = V(mk("OP", ("draw", "entry", len(self.entries(st))), 1, 1 << 48))
        o = self.L.off("sqfs_dir_entry", "inode")
        e.write(st, addc(entry, o[0]), o[1], at)
        e.write(st, found, 2, ONE); self.ret(st, ins, ZERO); self.log(st, "look", inode, nm, at)
        return [st, no, bad]
    def x_sqfs_inode_get(self, e, st, ins, args):
        fs, inode, at = args[:3]
        at = st.norm(at)
        out = []
        if self.only is None:
            out.append(self.fails(e, st, ins, "get", inode, at))
            s = st.copy(); self.mode(e, s, inode, LNK); self.ret(s, ins, ZERO); self.log(s, "get", inode, at, True); out.append(s)
        self.mode(e, st, inode, DIR); self.ret(st, ins, ZERO); self.log(st, "get", inode, at, False)
        return [st] + out
    def follower(self, e, st, ins, args, at):
        node, path = args[at[0]], args[at[1]]
        t = self.text(e, st, path)
        bad = self.fails(e, st, ins, "follow", node, t)
        self.mode(e, st, node, DIR); self.ret(st, ins, ZERO); self.log(st, "follow", node, t)
        return [st, bad]
    def walker(self, e, st, ins, args, at):
        node, path, found = args[at[0]], args[at[1]], args[at[2]]
        t = self.text(e, st, path)
        bad = self.fails(e, st, ins, "walk", node, t)
        no = st.copy()
        e.write(no, found, 2, ZERO); self.ret(no, ins, ZERO); self.log(no, "walk", node, t, None)
        out = [no, bad]
        if sum(1 for v in self.entries(st) if v[2] == "read") < len(self.links):
            s = st.copy(); self.mode(e, s, node, LNK); e.write(s, found, 2, ONE); self.ret(s, ins, ZERO); self.log(s, "walk", node, t, True)
            out.append(s)
        self.mode(e, st, node, DIR); e.write(st, found, 2, ONE); self.ret(st, ins, ZERO); self.log(st, "walk", node, t, False)
        return [st] + out
    def x_squash_readlink_inode(self, e, st, ins, args):
        fs, node, buf, size = args[:4]
        k = sum(1 for v in self.entries(st) if v[2] == "read")
        if k >= len(self.links):
            return []
        t = bytes_of(self.links[k])
        bad = st.copy(); self.ret(bad, ins, C(-1)); self.seterr(e, bad, ins); self.log(bad, "fails", "read", node, None)
        self.put(e, st, buf, t)
        self.ret(st, ins, C(len(t))); self.log(st, "read", node, t)
        return [st, bad]
    def x_sqfs_md_read(self, e, st, ins, args):
        fs, cur, buf, n = args[:4]
        n = st.norm(n)
        bad = self.fails(e, st, ins, "md", cur, None)
        t = bytes_of(self.links[0])
        if n[1] or n[0] != len(t):
            self.log(st, "short", n)
        for i, c in enumerate(t[:n[0]] if not n[1] else ()):
            e.write(st, addc(buf, i), 1, c)
        self.ret(st, ins, ZERO)
        return [st, bad]

class PathLab(Lab):
    def __init__(self, ctx):
        self.ctx = ctx; self.m = Steps(); self.m.L = self
        self.e = ctx.load(models=self.m, peel=24, MAXB=4000, MAXX=4000, eager=False, markfacts=True, inline=8)
        self.wrap(); self.nq = 0; self.skipped = []; self.done = []; self.statics = ()
    def query(self, *a):
        """a query in which texts stay undecided can take forever: the group is given up"""
        self.e.deadline = time.time() + 30
        try:
            return super().query(*a)
        except Broken as x:
            if "time budget" not in str(x):
                raise
            raise ValueError("the texts are not followed")
        finally:
            self.e.deadline = None
    def role(self, fn, ty, k=0):
        d = self.ctx.prog.fns[fn].dity
        return [i - 1 for i in range(1, len(d)) if d[i] in ty][k]
    def cycle(self):
        """the functions that resolve each other's links: (walker, follower)"""
        p = self.ctx.prog
        for fn in ("sqfs_lookup_path_inner", "squash_follow_link"):
            for f in sorted(p.closure(fn)):
                if p.recursive(f):
                    return sorted(p.sccof[f])
        return []

CHARS = ("*char", "*const char", "*unsigned char")

def calls(p, f):
    return {i["callee"][1] for B in p.fns[f].blocks for i in B if i["op"] == "call" and i["callee"][0] == "f"}

def shapes(thorough):
    out = []
    for n in range(0, 6 if thorough else 5):
        for t in itertools.product("/.x", repeat=n):
            out.append("".join(t))
    out += ["/x//../x", "/x/./../x", "/x/x/../x", "/x/x/../../x", "/x/x/..", "/x/x//..", "/x/x/./..", "/x/..", "/x/../", "x/../x", "x/x/..", "/xx/x.x/..x/x..", "/x/...", "/.../x",
            "/..x/../x", "/x../../x", "//x//x//", "/x/x/x", "/x/x/x/", "/x/./x/.", "/x/../x/../x", "/x/x/x/../../x", "./x/./x", "/x/../../x", "/x./.x/../x", "/xx/xx", "/xx/..", "/.x/..", "/x/x/../../x/x/..", "/x/x/../..", "/x/x//.././../x", "/x///../x", "/x/x///..", "/x/././../x"]
    # letters are numbered so that each is a byte of its own
    num = []
    seen = set()
    for t in out:
        if t not in seen:
            seen.add(t); k = iter("abcdefghijklm")
            num.append("".join(next(k) if c == "x" else c for c in t))
    return num

def walks(L):
    """every shape of path, with every outcome of the steps"""
    ctx = L.ctx; m = L.m; e = L.e; fn = "sqfs_lookup_path_inner"
    scc = L.cycle(); p = ctx.prog
    walker = [f for f in scc if "sqfs_dir_lookup" in p.closure(f) and ("sqfs_dir_lookup" in calls(p, f) or any(g not in scc and "sqfs_dir_lookup" in p.closure(g) and not p.fns[g].decl for g in calls(p, f) if g in p.fns))]
    follow = [f for f in scc if f not in walker]
    if len(walker) != 1 or not follow:
        raise ValueError("the resolution of paths and links is not two functions")
    m.followers = {f: (L.role(f, ("*sqfs_inode",)), L.role(f, CHARS)) for f in follow}
    for f, at in m.followers.items():
        setattr(m, "x_" + f, lambda e, st, ins, args, at=at: m.follower(e, st, ins, args, at))
    fs, inode, path, found, fl = L.args(fn)[:5]
    ns = 0; np = 0
    for shape in shapes(ctx.tier == "thorough"):
        text = bytes_of(shape); want = named(text)
        if want is None:
            continue
        ns += 1
        last = not ("/" + shape).endswith(("//", "/.", "/..", "/./", "/../"))      # one slash at the end changes nothing
        for follow_last in ((0, 1) if len(shape) > 4 or len(want) > 1 or shape.count("/") < 2 else (0,)):
            def setup(e, s, a):
                m.put(e, s, path, text); distinct(s, shape)
                return s.add_le(addc(a[4], -follow_last)) is not False and s.add_le(addc(neg(a[4]), follow_last)) is not False
            xs = L.query(fn, setup, True, ("sqfs_dir_lookup", "sqfs_inode_get") + tuple(follow))
            if xs and not any(x.ret is not None and state_of(x).ev(("eq", x.ret)) is not False and not any(v[2] == "fails" or v[2] == "look" and v[5] is None for v in m.entries(x)) for x in xs):
                x = xs[0]
                ctx.violation("walk:never", "the path \"%s\" (letters stand for any name) is never found, even if every component is" % shape, fn, x.loc, x.trace)
            for x in xs:
                np += judge(L, x, fn, shape, want, inode, found, last, follow_last)
    ctx.cov["path_shapes"] = ns; ctx.cov["path_exits"] = np

def judge(L, x, fn, shape, want, inode, found, last, follow_last):
    ctx = L.ctx; m = L.m; e = L.e
    ev = m.entries(x); s = state_of(x)
    def bad(key, msg):
        ctx.violation("walk:" + key, "the path \"%s\" (letters stand for any name): %s" % (shape, msg), fn, x.loc, x.trace)
    looks = [v for v in ev if v[2] == "look" or v[2] == "fails" and v[3] == "look"]
    k = -1; pend = None; here = None
    if any(t is None for v in looks for t in (v[5] if v[2] == "fails" else v[4],)) or any(v[2] == "follow" and v[4] is None for v in ev):
        return 0
    seen = []; failed = absent = False
    for n, v in enumerate(ev):
        kind = v[3] if v[2] == "fails" else v[2]
        who, what = (v[4], v[5]) if v[2] == "fails" else (v[3], v[4])
        failed = failed or v[2] == "fails"
        if kind == "look":
            if here == "link":
                bad("through", "a link in the middle of it is not followed"); return 1
            if len(seen) >= len(want) or tuple(what) != tuple(want[len(seen)]):
                bad("names", "\"%s\" is looked up after \"%s\"" % (show(what), "/".join(show(c) for c in seen))); return 1
            if who != inode:
                bad("where", "a component is looked up elsewhere than in the directory before it"); return 1
            seen.append(tuple(what)); here = None
            if v[2] != "fails":
                absent = v[5] is None; pend = v[5]
        elif kind == "get":
            if who != inode or pend is None or s.norm(sub(what, pend)) != ZERO:
                bad("entry", "the inode read is not the one of the entry found"); return 1
            here = "link" if v[2] == "get" and v[5] else None; pend = None
        elif kind == "follow":
            if here != "link" or who != inode:
                bad("follow", "something that is not a link is followed"); return 1
            if named(what) != seen:
                bad("name", "the link \"%s\" is followed under the name \"%s\"" % ("/".join(show(c) for c in seen), show(what))); return 1
            if len(seen) == len(want) and last and not follow_last:
                bad("last", "the link it names is followed although it was not to be"); return 1
            here = None
    if x.ret is None:
        return 0
    ok = s.ev(("eq", x.ret))
    yes = s.norm(e.read(s, found, 2))
    if failed:
        if ok is not False:
            bad("error", "resolving it does not fail although a step failed")
    elif absent:
        if ok is not True or yes != ZERO:
            bad("absent", "it is not reported as absent although a component is")
    elif ok is not True or s.ev(("eq", yes)) is not False:
        if len(seen) == len(want):
            bad("missed", "it is not found although every component is")
        elif ok is True or not ev:
            bad("missed", "it is not found although no component was absent")
    else:
        if len(seen) != len(want):
            bad("names", "it is found without \"%s\" being looked up" % show(want[len(seen)]))
        elif here == "link" and (follow_last or False):
            bad("unfollowed", "the link it names is not followed although it was to be")
        elif pend is not None:
            bad("entry", "the inode of the last component is not read")
    return 1

def target(path, link):
    """components named by a link's text, found at a path"""
    if link and link[0] == SLASH:
        return named(link)
    p = named(path)
    if not p:
        return None
    t = ()
    for c in p[:-1]:
        t += (SLASH,) + c
    return named(t + (SLASH,) + link)

def follows(L):
    """the text of a link, read at a path, and the text of the link it leads to"""
    ctx = L.ctx; m = L.m; e = L.e; fn = "squash_follow_link"; p = ctx.prog
    scc = L.cycle()
    entry = [f for f in scc if f in p.closure(fn)]
    walker = [f for f in scc if "sqfs_dir_lookup" in calls(p, f)]
    if len(walker) != 1 or walker[0] == fn or len(scc) != 2:
        raise ValueError("the resolution of paths and links is not two functions")
    at = (L.role(walker[0], ("*sqfs_inode",)), L.role(walker[0], CHARS), L.role(walker[0], ("*short",)))
    setattr(m, "x_" + walker[0], lambda e, st, ins, args: m.walker(e, st, ins, args, at))
    fs, path, node = L.args(fn)[:3]
    root = None
    first = ["p", "p/q", "../p", "./p", "/p", "/p/q", "../../p", "p/", "/p/", "q/../p", "/q/../p", "/p/q/..", "p/q/..", "p/.", "..", "p//"]
    second = ["r", "../r", "/r", "./r/s"] if ctx.tier == "thorough" else ["r", "../r"]
    m.only = True; n = 0
    try:
        for base in ("/a", "/a/b", "/a/b/c", "/ab/cd", "/a/b/../c", "//a//b", "/./a/./b", "a/b"):
            for one in first:
                for two in second if base in ("/a/b", "/a/b/c") else second[:1]:
                    t1 = target(bytes_of(base), bytes_of(one))
                    if t1 is None:
                        continue
                    t2 = target(sum(((SLASH,) + c for c in t1), ()), bytes_of(two)) if t1 else None
                    # what lies in front of a last dot or of an empty component is followed by the walk itself
                    m.links = (one, two) if t2 is not None and not one.endswith(("/.", "//")) else (one,)
                    def setup(e, s, a):
                        m.put(e, s, path, bytes_of(base)); distinct(s, base, *m.links)
                        return True
                    for x in L.query(fn, setup, True, ("squash_readlink_inode", "sqfs_inode_get", walker[0])):
                        n += led(L, x, fn, base, m.links, (t1, t2), fs, node)
    finally:
        m.only = None
    ctx.cov["link_exits"] = n

def same_value(L, x, got, want):
    """False if the two differ wherever they are looked at"""
    n = k = 0
    for seed in range(6):
        env = Env(seed + 1, (0, 1, 2)[seed % 3])
        try:
            env.pin(); env.memo = {}
            n += 1; k += M64(env.val(got) - want(env)) != 0
        except Unknown:
            continue
    return not (n >= 3 and k >= n - 1)

def led(L, x, fn, base, links, want, fs, node):
    ctx = L.ctx; m = L.m; e = L.e
    ev = m.entries(x); s = state_of(x)
    def bad(key, msg):
        ctx.violation("link:" + key, "the link \"%s\" that holds \"%s\"%s: %s" % (base, links[0], " and leads to one that holds \"%s\"" % links[1] if k > 1 else "", msg), fn, x.loc, x.trace)
    k = 0; walked = 0; fresh = False; failed = absent = False; here = True
    if any(v[2] == "walk" and v[4] is None for v in ev):
        return 0
    for v in ev:
        kind = v[3] if v[2] == "fails" else v[2]
        failed = failed or v[2] == "fails"
        if kind == "read":
            k += 1; here = False
            if not s.norm(sub(v[4] if v[2] == "fails" else v[3], node)) == ZERO:
                bad("which", "another inode's text is read"); return 1
        elif kind == "get":
            who, what = v[3:5] if v[2] != "fails" else v[4:6]
            fresh = who == node
            if what is not None and fresh:
                sb = e.read(s, addc(fs, L.off("sqfs", "sb")[0]), 8, True)
                if s.ev(("eq", sub(what, e.read(s, addc(sb, SB["root_inode"][0]), SB["root_inode"][1])))) is not True:
                    fresh = same_value(L, x, what, lambda env: sbval(L, env, env.val(fs), "root_inode"))
        elif kind == "walk":
            who, what = v[3:5] if v[2] != "fails" else v[4:6]
            walked += 1
            if who != node or not fresh:
                bad("root", "the walk does not start at the root"); return 1
            if what is not None and k <= len(links) and want[k - 1] is not None and named(what) != want[k - 1]:
                bad("text", "\"%s\" is looked up" % show(what)); return 1
            fresh = False
            if v[2] == "walk":
                absent = v[5] is None; here = bool(v[5])
    if x.ret is None:
        return 0
    ok = s.ev(("eq", x.ret))
    if failed:
        if ok is not False:
            bad("error", "following it does not fail although a step failed")
    elif absent:
        if ok is True:
            bad("absent", "following it succeeds although what it names is absent")
    elif ok is False:
        if not here:
            bad("lost", "following it fails although what it names is there")
    elif ok is True:
        if here:
            bad("stopped", "following it ends at a link")
        elif walked != k:
            bad("unwalked", "following it ends before what it names is looked up")
    return 1

def texts(L):
    """what reading a link yields"""
    ctx = L.ctx; m = L.m; e = L.e; fn = "squash_readlink_inode"
    fs, node, buf, size = L.args(fn)[:4]
    al = L.off("sqfs", "root_alias"), L.off("sqfs", "root_alias2")
    if None in al:
        al = ()
    A, B = "/A/", "/BC/"
    cases = [(t, a, b, r) for t in ("p", "/p", "../p/q", "/A/p", "/A/", "/A", "/p/A/q", "A/p", "/A/A/p", "/BC/p", "/BC/", "/BC", "/AA/p", "p/A/", "/A/BC/p", "/BC/A/p")
             for a in (None, A) for b in (None, B) for r in (0, 1, 100, -1)
             if (r != -1 and r != 1 or t in ("/p", "/A/p", "p"))]
    n = 0
    for text, a, b, room in cases:
        if not al and (a or b):
            continue
        t = bytes_of(text)
        want = t
        for x in (a, b):
            if x is not None and text.startswith(x):
                want = t[len(x) - 1:]; break
        m.links = (text,)
        def setup(e, s, q):
            mo = L.off("sqfs_inode", "base.mode"); so = L.off("sqfs_inode", "xtra.symlink_size")
            e.write(s, addc(node, mo[0]), mo[1], C(LNK)); e.write(s, addc(node, so[0]), so[1], C(len(t)))
            for o, x, nm in zip(al, (a, b), ("alias", "alias2")):
                w = V(mk("P", (fn, nm), 4096, INF, True)) if x else ZERO
                e.write(s, addc(fs, o[0]), o[1], w)
                if x:
                    m.put(e, s, w, bytes_of(x))
            z = C(len(t) + 1 + room); distinct(s, text, a, b)
            return s.add_le(sub(q[3], z)) is not False and s.add_le(sub(z, q[3])) is not False
        xs = L.query(fn, setup, True, ("sqfs_md_read",))
        def bad(key, msg, x=None):
            ctx.violation("text:" + key, "reading a link that holds \"%s\"%s: %s" % (text, " (aliases of the root: %s)" % ", ".join(v for v in (a, b) if v) if a or b else "", msg), fn, x.loc if x else ("", 0), x.trace if x else None)
        if not any(not any(v[2] == "fails" for v in m.entries(x)) for x in xs):
            bad("returns", "it does not return")
        for x in xs:
            s = state_of(x); ev = m.entries(x)
            if x.ret is None or any(v[2] == "short" and v[3][1] for v in ev):
                continue
            n += 1
            neg1 = s.ev(("eq", addc(x.ret, 1)))
            if any(v[2] == "fails" for v in ev):
                if neg1 is not True:
                    bad("error", "it does not fail although the text could not be read", x)
                continue
            if room < 0:
                if neg1 is not True:
                    bad("room", "it does not fail although the buffer is too small", x)
                continue
            if neg1 is True:
                bad("fails", "it fails although the buffer is large enough", x); continue
            got = m.text(e, s, buf)
            if any(v[2] == "short" for v in ev):
                bad("bytes", "another number of bytes is read than the text has", x)
            elif got is not None and got != want:
                bad("text", "it yields \"%s\"" % show(got), x)
            elif s.norm(x.ret) != C(len(want)):
                if not s.norm(x.ret)[1]:
                    bad("length", "it reports %d bytes instead of %d" % (s.norm(x.ret)[0], len(want)), x)
    ctx.cov["text_exits"] = n

@rule("C33")
def c33(ctx):
    L = PathLab(ctx)
    ctx.need("sqfs_lookup_path_inner", "squash_follow_link", "squash_readlink_inode", "sqfs_dir_lookup")
    for f in (walks, follows, texts):
        guard(L, f)
    ctx.cov["queries"] = L.nq; ctx.cov["groups_skipped"] = len(L.skipped)
    ctx.samples = ["%s: %d exits" % (f, n) for f, w, n in L.done[:40]] + ["skipped " + s for s in L.skipped]
    return ("abstract texts whose letters are unknown bytes, with the steps below (lookup of a name, reading an inode, a link's text) as things that find, do not find or fail: "
            "the names looked up are exactly the components of the path with empty ones and dots left out and each dot-dot undoing the component before it, each in the directory "
            "found before; a link in the middle is followed under its own name, the last one only on request; a link leads, from the root, to its absolute text or to its text in "
            "the directory that holds it; reading a link yields the recorded text, with a leading root alias replaced by the root")
