"""Shared services of the rules: one analysed program, reports, known findings, evidence."""
import json, os, sys, time
import frontend
from frontend import Broken, VERIF, REPO
from program import Program
from engine import Engine, St, sub_atoms
from models import Models, errno_addr
from terms import *
from state import split

# the functions of the headers of the analysed release; internal ones among them may disappear
API = """sqfs_cache_init sqfs_cache_destroy sqfs_cache_get sqfs_cache_add sqfs_block_cache_init sqfs_decompressor_get
sqfs_dir_open sqfs_dentry_init sqfs_dir_next sqfs_dentry_name_size sqfs_dentry_offset sqfs_dentry_next_offset
sqfs_dentry_type sqfs_dentry_mode sqfs_dentry_inode sqfs_dentry_inode_num sqfs_dentry_name sqfs_dentry_is_dir
sqfs_dir_lookup squash_follow_link sqfs_lookup_path_inner sqfs_lookup_path squash_opendir_inner squash_opendir
squash_closedir squash_readdir squash_telldir squash_seekdir squash_rewinddir squash_dirfd squash_tmpdir squash_tmpf
squash_extract squash_extract_clear_cache squash_open_inner squash_open squash_close squash_read squash_vfd_file
squash_lseek squash_start squash_find_entry sqfs_frag_entry sqfs_frag_block sqfs_blocklist_count sqfs_blocklist_init
sqfs_blocklist_next sqfs_read_range sqfs_blockidx_blocklist sqfs_blockidx_init sqfs_version_supported sqfs_version
sqfs_compression sqfs_init sqfs_export_ok sqfs_destroy sqfs_md_header sqfs_data_header sqfs_block_read
sqfs_block_dispose sqfs_md_block_read sqfs_data_block_read sqfs_md_cache sqfs_data_cache sqfs_md_cursor_inode
sqfs_md_read sqfs_divceil sqfs_id_get sqfs_readlink sqfs_export_inode sqfs_inode_root sqfs_inode_get sqfs_hash_init
sqfs_hash_destroy sqfs_hash_get sqfs_hash_add sqfs_hash_remove sqfs_makedev sqfs_mode sqfs_stat squash_readlink_inode
squash_readlink squash_scandir sqfs_stack_create sqfs_stack_init sqfs_stack_destroy sqfs_stack_pop sqfs_stack_top
sqfs_stack_at sqfs_stack_push sqfs_stack_size squash_stat squash_lstat squash_fstat sqfs_table_init sqfs_table_destroy
sqfs_table_get sqfs_traverse_open_inode sqfs_traverse_close sqfs_traverse_open sqfs_traverse_next sqfs_traverse_prune
sqfs_fd_open sqfs_fd_close sqfs_open_image""".split()
PUBLIC = """squash_start sqfs_open_image squash_stat squash_lstat squash_open squash_close squash_fstat squash_read squash_lseek
squash_readlink squash_opendir squash_closedir squash_readdir squash_telldir squash_seekdir squash_rewinddir
squash_dirfd squash_scandir squash_extract""".split()

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.viol = {}
        self.cov = {}
        self.samples = []
        self.t0 = time.time()
        self.e = None

    # ---- program under analysis
    def load(self, sample=False, clients=(), watch=None, marks=False, defines=(), models=None, **opts):
        self.prog = Program(frontend.load(sample=sample, clients=[os.path.join(VERIF, "clients", c) for c in clients], defines=defines))
        self.e = Engine(self.prog, models or Models(marks=marks), watch=watch)
        for k, v in opts.items():
            assert hasattr(self.e, k)
            setattr(self.e, k, v)
        self.summarised = []
        return self.e

    def need(self, *names):
        for n in names:
            f = self.prog.fns.get(n)
            if f is None or f.decl:
                raise Broken("the library has no function %s any more: this rule has nothing to hold on to" % n)

    def defined(self, n):
        f = self.prog.fns.get(n)
        return f is not None and not f.decl

    def roots(self):
        return [n for n in API if self.defined(n)]

    def summary(self, n):
        s = self.e.summary(n)
        if n not in self.summarised:
            self.summarised.append(n)
        return s

    def owner(self, fn, roots):
        """the functions of `roots` that reach fn through functions that are not roots"""
        rs = set(roots)
        if fn in rs:
            return {fn}
        callers = {}
        for a, cs in self.prog.calls.items():
            for c in cs:
                callers.setdefault(c, set()).add(a)
        out = set(); seen = set(); st = [fn]
        while st:
            x = st.pop()
            for c in callers.get(x, ()):
                if c in seen:
                    continue
                seen.add(c)
                if c in rs:
                    out.add(c)
                else:
                    st.append(c)
        return out or {fn}

    def instr(self):
        """functions and instructions analysed"""
        seen = set()
        for k in self.e.sums:
            seen.add(k[0])
        return len(seen), sum(len(B) for n in seen for B in self.prog.fns[n].blocks)

    def typeof(self, a):
        """the type an address atom points to, by its debug information"""
        t = None
        if a.kind == "P":
            t = a.tag
        elif a.kind == "M" and a.tag and "." in a.tag:
            t = self.member_type(a.tag)
        elif a.kind == "G":
            g = self.prog.globals.get(a.args[0])
            return (g or {}).get("ty")
        if not t:
            return None
        t = t.replace("const ", "")
        return t[1:] if t.startswith("*") else None

    def member(self, struct, name):
        """(offset, size) of a member or None"""
        d = self.prog.dis.get(struct)
        for m in (d or {}).get("members", ()):
            if m[0] == name:
                return m[1], m[2]
        return None

    def member_type(self, tag):
        s, m = tag.rsplit(".", 1)
        for x in self.prog.dis.get(s, {}).get("members", ()):
            if x[0] == m:
                return x[3]
        return None

    def lockname(self, L):
        b, off = split(L)
        if b is None:
            return show(L)
        a = ATOMS[b]
        if a.kind == "G":
            return a.args[0] + ("+%s" % show(off) if off != ZERO else "")
        t = self.typeof(a)
        return "%s+%s" % (t or show_atom(a), show(off))

    # ---- reports
    def violation(self, key, msg, fn="", loc=("", 0), trace=None, chain=()):
        self.viol.setdefault(key, {"key": key, "message": msg, "function": fn, "file": rel(loc[0]), "line": loc[1],
                                   "path": list(chain), "trace": flat(trace)})

    def finding(self, f, key=None):
        self.violation(key or "%s:%s:%s" % (f.kind, f.fn, f.msg), f.msg, f.fn, f.loc, f.trace, f.chain)

    def finish(self, explanation):
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k["property"] == self.pid]
        kk = {k["key"] for k in known}
        new = [v for v in self.viol.values() if v["key"] not in kk]
        old = [v for v in self.viol.values() if v["key"] in kk]
        nf, ni = self.instr() if self.e is not None and self.e.sums else (0, 0)
        if nf:
            self.cov.setdefault("functions_analysed", nf)
            self.cov.setdefault("instructions_analysed", ni)
            st = self.e.stats
            self.cov["abstract_steps"] = st["steps"]
            self.cov["calls_resolved"] = st["calls"]
            self.cov["loops_solved"] = st["loops"]
        cov = {"explanation": explanation}
        cov.update(self.cov)
        if self.samples:
            cov["samples"] = self.samples[:12]
        cov["violations"] = len(new)
        cov["known_findings"] = [v["key"] for v in old]
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        d = os.path.join(VERIF, "evidence") if not os.environ.get("LSQ_NOEV") else "/tmp/lsq_ev"
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for v in old:
            print("KNOWN-FINDING: property=%s %s (%s, %s:%s)" % (self.pid, v["message"], v["function"], v["file"], v["line"]))
        if not new:
            print("%s holds: %s" % (self.pid, ", ".join("%s=%s" % (k, v) for k, v in sorted(cov.items()) if isinstance(v, int))))
            return 0
        for n, v in enumerate(new):
            p = os.path.join(d, "%s-violation-%d.json" % (self.pid, n))
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            print("%s:%s: in %s: %s" % (v["file"], v["line"], v["function"], v["message"]))
            for t in v["trace"][-14:]:
                print("    %s" % (t,))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        return 1

def rel(p):
    return os.path.relpath(p, REPO) if p and os.path.isabs(p) else p

def flat(t):
    out = []
    while t:
        t, l, w = t
        out.append("%s:%s %s" % (rel(l[0]), l[1], "taken" if w is True else "not taken" if w is False else w))
    return out[::-1][-40:]

def retclass(x, kind):
    """is the result of this exit a failure?  kind: how failures are reported"""
    if x.ret is None:
        return False
    lo, hi = rng(x, x.ret)
    if kind == "neg":
        return True if hi < 0 else (False if lo >= 0 else None)
    if kind == "null":
        return True if hi == 0 and lo == 0 else (False if lo >= 1 else None)
    if kind == "nonzero":
        return True if lo >= 1 or hi <= -1 or (0, x.ret[1]) == x.ret and x.ret in x.neq else (False if lo == hi == 0 else None)
    raise ValueError(kind)

def rng(x, L):
    lo = hi = L[0]
    for i, c in L[1]:
        b = x.bnd.get(i) or (ATOMS[i].lo, ATOMS[i].hi)
        a = ATOMS[i]
        if a.kind in ("A", "H", "G", "FN"):
            b = (4096, INF)
        lo += c * (b[0] if c > 0 else b[1]); hi += c * (b[1] if c > 0 else b[0])
    return lo, hi
