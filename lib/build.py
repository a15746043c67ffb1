"""Builds the conformance driver from /repo's current sources. Content-addressed: anything that changes rebuilds."""
import hashlib, threading, os, subprocess, sys, glob, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("POOYA_REPO", "/repo")
CACHE = os.path.join(VERIF, "build")

BASE = ["-std=c++17", "-DEIGEN_MPL_ONLY", "-iquote", REPO, "-isystem", REPO + "/3rdparty", "-isystem",
        "/usr/include/eigen3", "-g0", "-w", "-fno-omit-frame-pointer", "-pthread"]
VARIANTS = {
    # checked build, with address and undefined-behaviour sanitizers
    "dbg": ["-O0", "-DEIGEN_NO_DEBUG", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"],
    # checks compiled out
    "rel": ["-O1", "-DNDEBUG", "-DEIGEN_NO_DEBUG"],
    # simulations in threads: watched for unsynchronized accesses
    "tsan": ["-O0", "-DEIGEN_NO_DEBUG", "-fsanitize=thread"],
}

class BuildError(Exception):
    pass

def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def repo_sources():
    r = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if f.endswith((".cpp", ".hpp", ".h", ".cc")): r.append(os.path.join(root, f))
    return sorted(r)

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))

LOCK = threading.RLock()
def build(variant):
    with LOCK: return build1(variant)

def build1(variant):
    """returns the path of the driver executable"""
    drv = os.path.join(VERIF, "driver")
    dsrc = sorted(glob.glob(drv + "/*.cpp")); dhdr = sorted(glob.glob(drv + "/*.hpp"))
    rsrc = repo_sources()
    flags = BASE + VARIANTS[variant]
    key = sha(dsrc + dhdr + rsrc, " ".join(flags))
    out = os.path.join(CACHE, variant + "-" + key)
    exe = os.path.join(out, "pdrv")
    if os.path.exists(exe): return exe
    # throw away older builds of this variant
    for o in glob.glob(os.path.join(CACHE, variant + "-*")): shutil.rmtree(o, ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    try:
        pch = os.path.join(tmp, "inc"); os.makedirs(pch)
        shutil.copy(os.path.join(drv, "common.hpp"), pch); shutil.copy(os.path.join(drv, "sim.hpp"), pch)
        lib = [p for p in rsrc if p.endswith(".cpp")]
        objs = []; jobs = []
        for p in dsrc + lib:
            o = os.path.join(tmp, hashlib.sha1(p.encode()).hexdigest()[:12] + ".o"); objs.append(o)
            jobs.append((p, o))
        def lib_job(j): run(["g++"] + flags + ["-c", j[0], "-o", j[1]])
        def drv_job(j): run(["g++"] + flags + ["-I", pch, "-include", os.path.join(pch, "common.hpp"), "-c", j[0], "-o", j[1]])
        with ThreadPoolExecutor(9) as ex:
            fp = ex.submit(run, ["g++"] + flags + ["-x", "c++-header", os.path.join(pch, "common.hpp"), "-o", os.path.join(pch, "common.hpp.gch")])
            fl = [ex.submit(lib_job, j) for j in jobs if j[0] in set(lib)]
            fp.result()
            # biggest first
            dj = sorted([j for j in jobs if j[0] not in set(lib)], key=lambda j: -os.path.getsize(j[0]))
            fd = [ex.submit(drv_job, j) for j in dj]
            for f in fl + fd: f.result()
        link = ["g++", "-pthread"] + [f for f in flags if f.startswith("-fsan")] + objs + ["-o", os.path.join(tmp, "pdrv")]
        run(link)
        for o in objs: os.unlink(o)
        shutil.rmtree(pch)
        if os.path.exists(exe): shutil.rmtree(tmp)
        else: os.rename(tmp, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe

def build_java():
    with LOCK: return build_java1()

def build_java1():
    """number override for TLC"""
    src = sorted(glob.glob(os.path.join(VERIF, "java", "**", "*.java"), recursive=True))
    key = sha(src)
    out = os.path.join(CACHE, "java-" + key)
    if os.path.exists(os.path.join(out, "ok")): return out
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    run(["javac", "-nowarn", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", tmp] + src)
    open(os.path.join(tmp, "ok"), "w").close()
    if os.path.exists(out): shutil.rmtree(tmp)
    else: os.rename(tmp, out)
    return out

if __name__ == "__main__":
    for v in sys.argv[1:] or ["dbg", "rel", "tsan"]:
        t = time.time(); print(build(v), "%.1fs" % (time.time() - t))
    if len(sys.argv) < 2: print(build_java())
