"""Compile /repo's current sources to LLVM IR and load them."""
import os, subprocess, json, hashlib, tempfile, shutil, glob, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LSQ_REPO", "/repo")
IRDUMP = os.path.join(VERIF, "build", "irdump")

class Budget(Exception):
    """the time for the whole check has run out"""

class Broken(Exception):
    """The analysis cannot give an answer (exit status 2, never a verdict)."""

def build_irdump():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(IRDUMP), exist_ok=True)
    fl = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    fl = [f for f in fl if not f.startswith("-std")]
    ld = subprocess.check_output(["llvm-config-18", "--libdir"], text=True).strip()
    tmp = IRDUMP + ".%d" % os.getpid()
    r = subprocess.run(["g++", "-O1", "-std=c++17", src, "-o", tmp] + fl + ["-fno-rtti", "-lLLVM-18", "-L" + ld],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("irdump does not build: " + r.stderr[-2000:])
    os.replace(tmp, IRDUMP)

def load(clients=(), sample=True, defines=()):
    build_irdump()
    tmp = tempfile.mkdtemp(prefix="lsq_ir_")
    try:
        units = sorted(glob.glob(REPO + "/src/*.c"))
        if sample:
            units += [u for u in sorted(glob.glob(REPO + "/sample/*.c")) if not u.endswith("enclose_io_memfs.c")]
        if not units:
            raise Broken("no sources under %s/src" % REPO)
        units += list(clients)
        base = ["clang-18", "-std=gnu17", "-w", "-Wno-error=int-conversion", "-Wno-error=implicit-function-declaration",
                "-Wno-error=incompatible-function-pointer-types", "-O0", "-g", "-Xclang", "-disable-O0-optnone",
                "-fno-discard-value-names", "-DRUBY_EXPORT", "-I" + REPO + "/src", "-I" + REPO + "/include",
                "-I" + REPO + "/sample", "-emit-llvm", "-c"] + list(defines)
        def comp(a):
            i, u = a
            o = "%s/%d.bc" % (tmp, i)
            r = subprocess.run(base + [u, "-o", o], capture_output=True, text=True, cwd=tmp)
            if r.returncode:
                raise Broken("cannot compile %s: %s" % (u, r.stderr[-1500:]))
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, enumerate(units)))
        r = subprocess.run(["llvm-link-18"] + objs + ["-o", tmp + "/all.bc"], capture_output=True, text=True)
        if r.returncode:
            raise Broken("llvm-link: " + r.stderr[-1500:])
        r = subprocess.run(["opt-18", "-passes=sroa", tmp + "/all.bc", "-o", tmp + "/o.bc"], capture_output=True, text=True)
        if r.returncode:
            raise Broken("opt: " + r.stderr[-1500:])
        r = subprocess.run([IRDUMP, tmp + "/o.bc"], capture_output=True, text=True)
        if r.returncode:
            raise Broken("irdump: " + r.stderr[-1500:])
        m = json.loads(r.stdout)
        m["units"] = [os.path.relpath(u, REPO) for u in units]
        return m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
