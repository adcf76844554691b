"""Builds a world's executable from /repo's current tree (content-hash cached)."""
import fcntl, hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

COMMON = ["-std=c++17", "-g", "-O1", "-fno-omit-frame-pointer", "-pthread", "-w",
          "-I" + os.path.join(VERIF, "shim/include"), "-I" + REPO + "/include", "-I" + REPO + "/src",
          "-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "worlds")]
FLAVOURS = {
    # memory errors become deterministic, attributable run outcomes
    "asan": ["-fsanitize=address"],
    # library + world code instrumented; our own runtime (sim/threads.cpp) is linked
    "sched": ["-DSIM_OWN_ALLOC"],
}
INSTR = {"asan": ["-fsanitize=bounds", "-fno-sanitize-recover=bounds"], "sched": ["-fsanitize=thread", "-fno-tree-fre", "-fno-tree-pre", "-fno-tree-dse", "-fno-tree-dominator-opts"]}

class BuildError(Exception):
    pass

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def _tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, fs in sorted(os.walk(d)):
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".tpp", ".inl", ".ipp")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(_read(p))
    return h.digest()

def lib_sources(groups):
    out = []
    for g in groups:
        if g.endswith(".cpp"):
            out.append(os.path.join(REPO, "src/lib", g))
        else:
            d = os.path.join(REPO, "src/lib", g)
            fs = sorted(glob.glob(os.path.join(d, "*.cpp")))
            cm = os.path.join(d, "CMakeLists.txt")
            named = _read(cm).decode(errors="replace") if os.path.exists(cm) else ""
            # the files the project's own build names (all, if it names none)
            out += [f for f in fs if os.path.basename(f) in named] or fs
    return out

def all_sources():
    out = []
    for root, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        out += [os.path.join(root, f) for f in sorted(fs) if f.endswith(".cpp")]
    return out

def build(world, flavour, groups, defines=(), extra=()):
    """returns path of the executable; raises BuildError"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hdr = _tree_hash([REPO + "/include", REPO + "/src", os.path.join(VERIF, "shim"),
                          os.path.join(VERIF, "sim"), os.path.join(VERIF, "worlds")])
        flags = COMMON + FLAVOURS[flavour] + ["-D" + d for d in defines]
        sim = [os.path.join(VERIF, "sim/core.cpp"), os.path.join(VERIF, "sim/disk.cpp")]
        if flavour == "sched":
            sim.append(os.path.join(VERIF, "sim/threads.cpp"))
        sim += [os.path.join(VERIF, e) for e in extra]
        jobs = [(s, flags) for s in sim]
        instr = flags + INSTR[flavour]
        jobs += [(s, instr) for s in lib_sources(groups) if os.path.exists(s)]
        jobs.append((os.path.join(VERIF, "worlds", world + ".cpp"), instr))
        odir = os.path.join(BUILD, "obj")
        os.makedirs(odir, exist_ok=True)
        objs, todo = [], []
        for src, fl in jobs:
            if not os.path.exists(src):
                raise BuildError("missing source " + src)
            k = hashlib.sha256(("\0".join(fl) + src).encode() + _read(src) + hdr).hexdigest()[:32]
            o = os.path.join(odir, os.path.basename(src)[:-4] + "-" + k + ".o")
            objs.append(o)
            if not os.path.exists(o):
                todo.append((src, fl, o))
        def comp(j):
            src, fl, o = j
            if os.path.exists(o):
                return None
            tmp = o + ".%d.tmp" % os.getpid()
            r = subprocess.run(["g++"] + fl + ["-c", src, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                return src + "\n" + r.stderr[-4000:]
            os.rename(tmp, o)
            return None
        with ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(comp, todo) if e]
        if errs:
            raise BuildError("\n".join(errs))
        hh = hashlib.sha256("\0".join(objs).encode())
        for src in all_sources():
            hh.update(src.encode() + _read(src))
        k = hh.hexdigest()[:24]
        exe = os.path.join(BUILD, "%s-%s-%s" % (world, flavour, k))
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(BUILD, "%s-%s-*" % (world, flavour))):
                try:
                    if os.path.getmtime(old) < os.path.getmtime(BUILD + "/lock") - 7200:
                        os.remove(old)
                except OSError:
                    pass
            link = ["g++", "-g", "-pthread", "-rdynamic"]
            if flavour == "sched":
                link += ["-Wl,--wrap=%s" % f for f in ("memcpy", "memmove", "memset", "malloc", "free")]
            if flavour == "asan":
                link += ["-fsanitize=address,bounds"]
            r = subprocess.run(link + objs + ["-o", exe + ".tmp", "-ldl"], capture_output=True, text=True)
            if r.returncode and "undefined reference" in r.stderr:
                # code may have moved to another file of the library: offer the rest of it
                rest = []
                for src in all_sources():
                    if src in [s for s, _ in jobs]:
                        continue
                    kk = hashlib.sha256(("\0".join(instr) + src).encode() + _read(src) + hdr).hexdigest()[:32]
                    rest.append((src, instr, os.path.join(odir, os.path.basename(src)[:-4] + "-" + kk + ".o")))
                with ThreadPoolExecutor(8) as ex:
                    list(ex.map(comp, rest))
                ar = exe + ".a"
                if os.path.exists(ar):
                    os.remove(ar)
                ok = [o for _, _, o in rest if os.path.exists(o)]
                subprocess.run(["ar", "rcs", ar] + ok, capture_output=True)
                r = subprocess.run(link + objs + [ar, "-o", exe + ".tmp", "-ldl"], capture_output=True, text=True)
                os.remove(ar)
            if r.returncode:
                raise BuildError(r.stderr[-4000:])
            os.rename(exe + ".tmp", exe)
        for o in objs:
            os.utime(o)
        return exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
