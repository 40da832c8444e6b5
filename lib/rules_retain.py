"""C18: nothing the caller passed stays referenced."""
from check import *
from rules import rule

# what is handed over for good: the image itself, and what internal containers are given to keep
KEPT = {("sqfs_init", 1), ("sqfs_open_image", 1), ("sqfs_table_init", 1), ("sqfs_fd_open", 0), ("sqfs_hash_add", 2), ("sqfs_dentry_init", 1), ("sqfs_fd_close", 0)}

def lent(prog, n):
    """the parameters through which a caller lends strings and buffers"""
    f = prog.fns[n]; out = {}
    for j, (pn, pt) in enumerate(f.params):
        t = (f.dity[j + 1] if len(f.dity) > j + 1 else None) or ""
        if pt == "ptr" and (n, j) not in KEPT and t.replace("const ", "") in ("*char", "*void", "*unsigned char", "*stat", "***dirent", "*signed char"):
            out[j] = pn
    return out

@rule("C18")
def c18(ctx):
    ok = ("*char", "*void", "*unsigned char", "*stat", "***dirent", "*signed char")
    def watch(e, s, ins, addr, size, rw, tag, val=None):
        if rw != "w" or size != 8 or val is None:
            return
        vb, off = split(s.norm(val)); b, o2 = split(addr)
        if vb is None or b is None or ATOMS[vb].kind != "P" or ATOMS[vb].args in KEPT or ATOMS[b].kind in ("A", "P") and (ATOMS[b].tag or "").replace("const ", "").startswith("**"):
            return
        if (ATOMS[vb].tag or "").replace("const ", "") in ok and ATOMS[b].kind != "A":
            s.marks = s.marks | frozenset([("kept", V(ATOMS[vb]))])
    e = ctx.load(watch=watch)
    ctx.need("squash_open", "squash_opendir", "squash_stat", "squash_extract")
    nf = np = ne = nc = 0
    for n in ctx.roots():
        lp = lent(ctx.prog, n)
        if not lp:
            continue
        nf += 1; np += len(lp)
        s = ctx.summary(n)
        for x in s.exits:
            ne += 1
            gone = set(x.freed) if not isinstance(x.freed, dict) else set(x.freed)
            for b, o in x.mem.items():
                a = ATOMS[b]
                if b in gone or a.kind == "A":
                    continue
                for k, (sz, val) in o.cells.items():
                    nc += 1
                    if sz != 8:
                        continue
                    if not is_lin(val):
                        continue
                    vb, off = split(val)
                    if vb is None:
                        continue
                    va = ATOMS[vb]
                    if va.kind == "P" and va.args[0] == n and va.args[1] in lp:
                        if a.kind == "P" and a.args[1] in lp and a.args[0] == n:
                            continue            # written back into what the caller lent
                        ctx.violation("%s:%s" % (n, lp[va.args[1]]), "%s leaves a reference to its caller's '%s' in memory that outlives the call (%s)" % (n, lp[va.args[1]], show(V(a))), n, x.loc, x.trace)
    ctx.cov.update(functions_checked=nf, lent_parameters=np, exits_checked=ne, cells_checked=nc)
    return ("for every function and every abstract path, the memory reachable when the call returns (globals, objects behind arguments, heap blocks) is searched "
            "for addresses derived from a string or buffer the caller lent; parameters that hand something over for good (the image) are excepted")
