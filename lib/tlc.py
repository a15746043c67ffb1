"""Runs TLC."""
import os, re, subprocess, json, tempfile, shutil, time
import build
SPEC = os.path.join(build.VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcError(Exception):
    pass

def tlc(module, cfg=None, env=None, workers=1, extra=(), timeout=800, heap="2g", jopts=()):
    """runs TLC on spec/<module>.tla and returns its output and exit status"""
    jdir = build.build_java()
    meta = tempfile.mkdtemp(prefix="tlc-")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + meta, "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:pooya.Overrides",
           "-DTLA-Library=" + SPEC] + list(jopts) + ["-cp", jdir + ":" + JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ); e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=meta)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        raise TlcError("TLC timed out: " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m: return int(m[-1][0]), int(m[-1][1])
    return 0, 0

def stuck_at(out):
    """the trace line whose event a trace specification could not evaluate (not: memory or stack exhausted, killed)"""
    if re.search(r"OutOfMemory|StackOverflow|heap space|insufficient memory", out): return None
    if not re.search(r"Attempted to|TLC encountered|evaluating the|Error: .*(CASE|CHOOSE|domain)", out): return None
    gen, _ = stats(out)
    return gen or None

def unquote(s):
    # TLC prints strings with \" and \\ escapes
    return json.loads('"' + s + '"') if False else s.replace('\\"', '"').replace("\\\\", "\\")

def report(out):
    m = re.search(r'<<\s*"REPORT",\s*"(.*)"\s*>>', out, re.S)
    if not m: return None
    return json.loads(unquote(m.group(1)))

def model_check(module, cfg=None, workers=4, timeout=800, extra=(), heap="4g"):
    """exhaustive run; returns dict(states, transitions, ok, out)"""
    rc, out = tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, heap=heap)
    gen, dist = stats(out)
    ok = rc == 0 and "No error has been found" in out
    return dict(module=cfg or module, states=dist, transitions=gen, ok=ok, rc=rc, out=out)

def generate(module, cfg, extra=(), timeout=600, workers=1):
    """behaviours the specification prints: <<"GEN", json>>"""
    rc, out = tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, heap="4g")
    if rc != 0: raise TlcError("generation with %s failed:\n%s" % (cfg, out[-2000:]))
    r = []
    for line in out.splitlines():
        m = re.match(r'<<"GEN", "(.*)">>$', line)
        if m: r.append(json.loads(unquote(m.group(1))))
    if not r: raise TlcError("nothing generated by " + cfg)
    gen, dist = stats(out)
    return r, dist, gen
