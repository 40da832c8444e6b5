"""C08, C09: how failures are reported."""
from rules import *
from models import Models

# functions whose result speaks of image data; what they report when a load below them failed
LOADING = ("*sqfs", "*sqfs_table", "*sqfs_dir", "*sqfs_traverse", "*sqfs_blocklist", "*sqfs_md_cursor", "*sqfs_blockidx")
FILE_CALLS = ("squash_open", "squash_opendir", "squash_close", "squash_closedir", "squash_read", "squash_lseek", "squash_stat", "squash_lstat",
              "squash_fstat", "squash_readlink", "squash_scandir", "squash_extract", "squash_open_inner", "squash_opendir_inner")
ENOENT, EIO, EBADF = 2, 5, 9

def loads(fn):
    return any((t or "").replace("const ", "") in LOADING for t in fn.dity[1:])

def outparam(x, fn):
    """failure reported through an argument of the error type: True, False, None if there is none or nothing is known"""
    for i, t in enumerate(fn.dity[1:]):
        if t != "*sqfs_err":
            continue
        for b, o in x.mem.items():
            a = ATOMS[b]
            if a.kind == "P" and a.args[1] == i:
                v = e_cell(o, ZERO)
                if v is not None:
                    lo, hi = rng(x, v)
                    return True if lo > 0 or hi < 0 or v in x.neq else False if lo == hi == 0 else None
    return None

@rule("C08")
def c08(ctx):
    e = ctx.load(errtypes=("sqfs_err",), errfilter=loads, errmark=True)
    roots = ctx.roots()
    nex = nf = 0
    for n in roots:
        s = ctx.summary(n)
        fn = ctx.prog.fns[n]
        k = failkind(n)
        if fn.ret == "void" or not (loads(fn) or n in FILE_CALLS or n == "squash_readdir"):
            continue
        for x in s.exits:
            nex += 1
            if not x.faults & {"decode", "oom", "err"}:
                continue
            nf += 1
            why = "memory ran out" if "oom" in x.faults else "a block could not be decompressed" if "decode" in x.faults else "a load below it failed"
            r = retclass(x, k)
            if "*sqfs_err" in fn.dity[1:]:
                o = outparam(x, fn)
                if o is False or o is None and not touched(x, fn):
                    ctx.violation("%s:success" % n, "%s reports no error although %s" % (n, why), n, x.loc, x.trace)
                continue
            if n == "squash_readdir":
                if r is True and not any(m == ("errno", "set") or m == ("errno", "maybe") for m in x.marks):
                    ctx.violation("%s:end" % n, "squash_readdir reports the end of the directory although %s" % why, n, x.loc, x.trace)
                elif r is False:
                    ctx.violation("%s:entry" % n, "squash_readdir returns an entry although %s" % why, n, x.loc, x.trace)
                continue
            if r is False:
                ctx.violation("%s:success" % n, "%s reports success although %s" % (n, why), n, x.loc, x.trace)
            elif r is True and n in FILE_CALLS and x.faults & {"decode", "oom"}:
                v = errno_of(x)
                if v is not None and rng(x, v) == (ENOENT, ENOENT):
                    ctx.violation("%s:missing" % n, "%s reports that the path does not exist although %s" % (n, why), n, x.loc, x.trace)
    ctx.cov["exit_paths"] = nex; ctx.cov["failing_paths"] = nf; ctx.cov["public_functions"] = len(roots)
    return ("Error-propagation analysis: every abstract path of every public function that loads image data carries the failures that happened on it "
            "(allocation, decompression, non-zero result of a loading callee, at any depth); a path that carries one must return that function's failure value, "
            "set its error argument, or (readdir) set errno; it must not claim that the path is missing.")

def touched(x, fn):
    i = [k for k, t in enumerate(fn.dity[1:]) if t == "*sqfs_err"][0]
    return any(ATOMS[b].kind == "P" and ATOMS[b].args[1] == i and (o.cells or o.ovl) for b, o in x.mem.items())

class NotFound(Models):
    """lookups that end without an error and without an entry"""
    def lookup(self, e, st, ins, args):
        e.write(st, args[3], 2, ZERO)
        st.marks = st.marks | frozenset([("notfound",)])
        self.ret(st, ins, ZERO)
    x_sqfs_lookup_path = x_sqfs_lookup_path_inner = lookup

@rule("C09")
def c09(ctx):
    e = ctx.load(errmark=True)
    calls = [n for n in FILE_CALLS if ctx.defined(n)]
    if len(calls) < 8:
        raise Broken("the file-style calls are gone")
    nex = 0
    for n in calls:
        s = ctx.summary(n)
        k = failkind(n)
        for x in s.exits:
            if retclass(x, k) is not True:
                continue
            nex += 1
            m = [y[1] for y in x.marks if y[0] == "errno"]
            if not m or "entry" in m:
                ctx.violation("%s:stale" % n, "%s can fail with errno as an earlier call left it" % n, n, x.loc, x.trace)
            elif "zero" in m:
                ctx.violation("%s:zero" % n, "%s can fail with errno zero" % n, n, x.loc, x.trace)
            if any(f in x.faults for f in ("oom",)) and n != "squash_extract":
                v = errno_of(x)
                if v is not None and rng(x, v) == (ENOENT, ENOENT):
                    ctx.violation("%s:enoent" % n, "%s reports a missing path when memory ran out" % n, n, x.loc, x.trace)
    # a path that does not exist
    e2 = ctx.load(models=NotFound(), errmark=True)
    nnf = 0
    if all(ctx.defined(f) and len(ctx.prog.fns[f].params) >= 4 for f in ("sqfs_lookup_path", "sqfs_lookup_path_inner")):
        e2.opaque |= {"sqfs_lookup_path", "sqfs_lookup_path_inner"}
        for n in calls:
            s = ctx.summary(n)
            for x in s.exits:
                if ("notfound",) not in x.marks:
                    continue
                nnf += 1
                r = retclass(x, failkind(n))
                if r is False:
                    ctx.violation("%s:found" % n, "%s succeeds on a path that does not exist" % n, n, x.loc, x.trace)
                elif r is True and not x.faults:
                    v = errno_of(x)
                    if v is None or not (rng(x, v)[0] <= ENOENT <= rng(x, v)[1]):
                        ctx.violation("%s:notfound" % n, "%s does not report ENOENT for a path that does not exist" % n, n, x.loc, x.trace)
    ctx.e = e
    ctx.cov["failing_paths"] = nex; ctx.cov["not_found_paths"] = nnf; ctx.cov["file_calls"] = len(calls)
    return ("Every abstract path of every file-style call remembers how errno was last written on it; at each failing return it must have been set "
            "to a non-zero value during the call. With lookups assumed to end without an entry, every path must fail with ENOENT.")
