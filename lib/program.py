"""Functions, CFG, dominators, loops, liveness of the loaded IR."""
import sys
sys.setrecursionlimit(20000)

class Loop:
    __slots__ = ("header", "blocks", "children", "parent")

class Fn:
    def __init__(self, j):
        self.name = j["name"]; self.decl = j["decl"]; self.internal = j["internal"]
        self.params = j["params"]; self.ret = j["ret"]; self.vararg = j["vararg"]
        self.file = j.get("file", ""); self.line = j.get("line", 0); self.dity = j.get("dity", [])
        self.addrtaken = j["addrtaken"]
        self.blocks = j.get("blocks", [])
        if self.decl:
            return
        self.ins = {}
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]; self.pred = [[] for _ in range(n)]
        for b, B in enumerate(self.blocks):
            for i in B:
                i["fn"] = self.name
                self.ins[i["i"]] = i
            t = B[-1]
            if t["op"] == "br":
                ss = t["s"]
            elif t["op"] == "switch":
                ss = [t["def"]] + [c[1] for c in t["cases"]]
            else:
                ss = []
            seen = []
            for s in ss:
                if s not in seen:
                    seen.append(s)
            self.succ[b] = seen
            for s in seen:
                self.pred[s].append(b)
        self.phis = [[i for i in B if i["op"] == "phi"] for B in self.blocks]
        self._rpo(); self._dom(); self._loops(); self._live()

    def _rpo(self):
        seen = set(); post = []
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                post.append(b); st.pop()
        self.rpo = post[::-1]
        self.rpoidx = {b: i for i, b in enumerate(self.rpo)}

    def _dom(self):
        dom = {b: None for b in self.rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [dom[p] for p in self.pred[b] if dom.get(p) is not None]
                if not ps:
                    continue
                d = set.intersection(*ps) | {b}
                if d != dom[b]:
                    dom[b] = d; ch = True
        self.dom = dom

    def _loops(self):
        L = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if s in self.dom[b]:
                    body = L.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in self.pred[x] if p in self.rpoidx)
        loops = []
        for h, body in L.items():
            l = Loop(); l.header = h; l.blocks = body; l.children = []; l.parent = None
            loops.append(l)
        loops.sort(key=lambda l: len(l.blocks))
        for i, l in enumerate(loops):
            for m in loops[i + 1:]:
                if l.header in m.blocks and l.blocks <= m.blocks and m is not l:
                    l.parent = m; m.children.append(l); break
        self.loops = loops
        self.top = [l for l in loops if l.parent is None]
        # order of the nodes of each region (collapsed DAG)
        self.order = {}
        self._region(None, set(self.rpo), 0, self.top)
        for l in loops:
            self._region(l, l.blocks, l.header, l.children)

    def _region(self, loop, blocks, header, children):
        rep = {}
        for c in children:
            for b in c.blocks:
                rep[b] = c.header
        node = lambda b: rep.get(b, b)
        succ = {}
        for b in blocks:
            for s in self.succ[b]:
                if s in blocks and not (loop is not None and s == header):
                    x, y = node(b), node(s)
                    if x != y:
                        succ.setdefault(x, set()).add(y)
        seen = set(); post = []
        def dfs(x):
            st = [(x, iter(sorted(succ.get(x, ()), key=lambda q: -self.rpoidx[q])))]
            seen.add(x)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(sorted(succ.get(s, ()), key=lambda q: -self.rpoidx[q])))); break
                else:
                    post.append(b); st.pop()
        dfs(node(header))
        order = {b: i for i, b in enumerate(post[::-1])}
        self.order[loop.header if loop else None] = (order, {c.header: c for c in children})

    def _live(self):
        def ops(i):
            out = []
            def o(x):
                if isinstance(x, list) and x and x[0] == "v":
                    out.append(x[1])
            for k in ("a", "p", "v", "callee", "n"):
                x = i.get(k)
                if x is None:
                    continue
                if k == "a":
                    for y in x:
                        o(y)
                else:
                    o(x)
            for x in i.get("idx", ()):
                o(x[0])
            return out
        self.ops = {}
        use = {}; dfn = {}
        for b, B in enumerate(self.blocks):
            u = set(); d = set()
            for i in B:
                if i["op"] != "phi":
                    os = ops(i)
                    self.ops[i["i"]] = os
                    u.update(x for x in os if x not in d)
                d.add(i["i"])
            use[b] = u; dfn[b] = d
        live = {b: set() for b in range(len(self.blocks))}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s] - {p["i"] for p in self.phis[s]}
                    for p in self.phis[s]:
                        for pb, v in p["in"]:
                            if pb == b and v[0] == "v":
                                out.add(v[1])
                n = use[b] | (out - dfn[b]) | {p["i"] for p in self.phis[b]}
                if n != live[b]:
                    live[b] = n; ch = True
        self.live = live

class Program:
    def __init__(self, m):
        self.raw = m
        self.fns = {j["name"]: Fn(j) for j in m["functions"]}
        self.structs = m["structs"]; self.dis = m["dis"]
        self.globals = {g["name"]: g for g in m["globals"]}
        # llvm struct -> debug-info record by name / by layout
        self.tagcache = {}
        self._callgraph()

    def di_of(self, sname):
        n = sname.split(".", 1)[1] if "." in sname else sname
        d = self.dis.get(n)
        if d:
            return n, d
        base = n.rsplit(".", 1)[0]
        d = self.dis.get(base)
        if d and d["size"] == self.structs.get(sname, {}).get("size"):
            return base, d
        if n.startswith("anon"):
            # an unnamed struct: the one unnamed record of the same layout
            fs = [[x[0], x[1]] for x in self.structs.get(sname, {}).get("fields", ())]
            c = [k for k, d in self.dis.items() if k.startswith("#") and not d["union"] and d["size"] == self.structs[sname]["size"]
                 and [[m[1], m[2]] for m in d["members"]] == fs]
            if len(c) == 1:
                return c[0], self.dis[c[0]]
        return None, None

    def tag(self, t):
        """[[struct, field], ...] -> 'type.member', member type"""
        key = tuple(map(tuple, t))
        r = self.tagcache.get(key)
        if r is None:
            r = self._tag(key); self.tagcache[key] = r
        return r

    def _tag(self, key):
        s, f = key[-1]
        n, d = self.di_of(s)
        st = self.structs.get(s)
        if d is None or st is None:
            # anonymous nested struct: name it through the enclosing member when known
            if st is not None:
                return ("%s#%d" % (s, f), None, st["fields"][f][1])
            return (None, None, 0)
        off = st["fields"][f][0]
        for m in d["members"]:
            if m[1] == off and not (d["union"]):
                return ("%s.%s" % (n, m[0]), m[3], m[2])
        return ("%s@%d" % (n, off), None, st["fields"][f][1])

    def member_extent(self, rec, off):
        """the innermost member of record `rec` that contains byte `off`: (start, end), or None"""
        d = self.dis.get(rec); base = 0
        while d is not None and not d["union"]:
            for m in d["members"]:
                if base + m[1] <= off < base + m[1] + m[2]:
                    break
            else:
                return None
            base += m[1]
            sub = self.dis.get(m[3])
            if sub is None or sub["size"] != m[2] or not sub["members"]:
                return base, base + m[2]
            d = sub
        return None

    def di_member(self, rec, off):
        for m in self.dis.get(rec, {}).get("members", ()):
            if m[1] == off:
                return m[0]
        return "@%d" % off

    def pointee_size(self, ty):
        t = ty.replace("const ", "")
        if not t.startswith("*"):
            return None
        t = t[1:]
        if t.startswith("*"):
            return 8
        d = self.dis.get(t)
        if d:
            return d["size"]
        return {"char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8,
                "unsigned long": 8, "unsigned long long": 8, "long long": 8, "_Bool": 1}.get(t)

    def _callgraph(self):
        self.bysig = {}
        for f in self.fns.values():
            if f.addrtaken and not f.decl:
                self.bysig.setdefault((f.ret, tuple(p[1] for p in f.params)), []).append(f.name)
        self.calls = {}
        for f in self.fns.values():
            if f.decl:
                continue
            cs = set()
            for B in f.blocks:
                for i in B:
                    if i["op"] == "call":
                        c = i["callee"]
                        if c[0] == "f":
                            cs.add(c[1])
                        else:
                            cs.update(self.targets(i))
                        for a in i["a"]:
                            if a[0] == "f":
                                cs.add(a[1])
            self.calls[f.name] = cs
        # SCCs (Tarjan) bottom-up
        idx = {}; low = {}; onst = set(); st = []; self.sccs = []; self.sccof = {}
        cnt = [0]
        def visit(v):
            idx[v] = low[v] = cnt[0]; cnt[0] += 1; st.append(v); onst.add(v)
            for w in sorted(self.calls.get(v, ())):
                if w not in self.fns or self.fns[w].decl:
                    continue
                if w not in idx:
                    visit(w); low[v] = min(low[v], low[w])
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop(); onst.discard(w); c.append(w)
                    if w == v:
                        break
                self.sccs.append(c)
                for w in c:
                    self.sccof[w] = c
        for f in sorted(self.fns):
            if not self.fns[f].decl and f not in idx:
                visit(f)

    def targets(self, i):
        return [n for n in self.bysig.get((i["t"], tuple(i["at"])), [])]

    def fieldtargets(self, tag, ins):
        """functions whose address is stored in a field (directly or through parameters), by tag"""
        if not hasattr(self, "_ft"):
            self._ft = {}
            flow = {}          # (fn, param) -> set of function names
            fld = {}           # (fn, param) -> tags it is stored to
            for f in self.fns.values():
                if f.decl:
                    continue
                for B in f.blocks:
                    for i in B:
                        if i["op"] == "store":
                            d = i["a"][1]
                            g = f.ins.get(d[1]) if d[0] == "v" else None
                            if g is None or g["op"] != "getelementptr" or "tag" not in g:
                                continue
                            t = self.tag(g["tag"])[0]
                            v = i["a"][0]
                            if v[0] == "f":
                                self._ft.setdefault(t, set()).add(v[1])
                            elif v[0] == "a":
                                fld.setdefault((f.name, v[1]), set()).add(t)
                        elif i["op"] == "call" and i["callee"][0] == "f":
                            for n, x in enumerate(i["a"]):
                                if x[0] == "f":
                                    flow.setdefault((i["callee"][1], n), set()).add(x[1])
                                elif x[0] == "a":
                                    fld.setdefault((f.name, x[1]), set()).add((i["callee"][1], n))
            ch = True
            while ch:
                ch = False
                for k, ts in fld.items():
                    for t in ts:
                        src = flow.get(k, set())
                        dst = flow.setdefault(t, set()) if isinstance(t, tuple) else self._ft.setdefault(t, set())
                        if not src <= dst:
                            dst |= src; ch = True
        r = sorted(self._ft.get(tag, ()))
        return r or self.targets(ins)

    def recursive(self, name):
        c = self.sccof.get(name, [])
        return len(c) > 1 or name in self.calls.get(name, ())

    def closure(self, root):
        seen = set(); st = [root]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.calls.get(x, ()))
        return seen

SIGNED = {"int", "long", "short", "char", "long long", "signed char", "long int"}
def typerange(t, size):
    """value range of a debug-info scalar type"""
    if t is None:
        return None
    t = t.replace("const ", "")
    if t.startswith("*"):
        return (0, float("inf"))
    w = size * 8
    if t in SIGNED:
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if t.startswith("unsigned") or t == "_Bool" or t.startswith("__u") or t.startswith("uint"):
        return (0, (1 << min(w, 63)) - 1)
    return None
