"""Conformance runs: scenarios -> driver -> traces -> trace specification."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import build, tlc

class InfraError(Exception):
    pass

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:malloc_context_size=2:detect_stack_use_after_return=0:quarantine_size_mb=16:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
           TSAN_OPTIONS="halt_on_error=1:exitcode=96:report_signal_unsafe=0",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=0")
CPUS = os.cpu_count() or 4

def run_driver(exe, sp, tp, skip, secs, cwd):
    return subprocess.run([exe, sp, tp, str(skip), str(secs)], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=cwd)

def runnable(variant, workdir):
    """does the build start at all here (the thread sanitizer depends on the layout of the address space)"""
    a = os.path.join(workdir, "none.sc"); b = os.path.join(workdir, "none.tr")
    for x in (a, b): open(x, "w").close()
    return any(run_driver(build.build(variant), a, b, 0, 5, workdir).returncode == 0 for _ in range(3))

def why_of(p):
    w = {96: "data race", 97: "hangs", 98: "undefined behaviour", 99: "memory error"}.get(p.returncode, "crashes (status %d)" % p.returncode)
    det = [x for x in p.stderr.splitlines() if "ERROR" in x or "ThreadSanitizer" in x or "runtime error" in x or "what()" in x][:2]
    return w + ": " + " | ".join(det)[:300]

def drive(scens, variant, workdir, tag, secs=20):
    """runs the scenarios; returns (list of traces, one per scenario that ran through, as lists of lines; crashes)"""
    exe = build.build(variant)
    cwd = os.path.join(workdir, tag + ".d"); os.makedirs(cwd, exist_ok=True)
    sp = os.path.join(workdir, tag + ".sc"); tp = os.path.join(workdir, tag + ".tr")
    with open(sp, "w") as f:
        for s in scens: f.write(json.dumps(s) + "\n")
    crashes = []; skip = 0; traces = []
    while skip < len(scens):
        open(tp, "w").close()
        p = run_driver(exe, sp, tp, skip, secs, cwd)
        if p.returncode == 2: raise InfraError("driver: " + p.stderr[-2000:])
        cur = []; n = 0
        with open(tp, errors="replace") as f:
            for line in f:
                cur.append(line)
                if line == '{"e":"end"}\n': traces.append((skip + n, cur)); cur = []; n += 1
        if p.returncode == 0: break
        k = skip + n
        if k >= len(scens): raise InfraError("driver fails after the last scenario: " + why_of(p))
        # once more, alone and with more time: only what happens again counts
        sp1 = sp + "1"; tp1 = tp + "1"
        with open(sp1, "w") as f: f.write(json.dumps(scens[k]) + "\n")
        open(tp1, "w").close()
        q = run_driver(exe, sp1, tp1, 0, secs * 8, cwd)
        if q.returncode == 0: traces.append((k, open(tp1).readlines()))
        else: crashes.append((scens[k], why_of(q)))
        skip = k + 1
        if len(crashes) >= 10 or crashes and crashes[-1][1].startswith("hangs"): break
    for x in (sp, tp): os.unlink(x)
    return traces, crashes

def drive_parallel(scens, variant, workdir, tag):
    n = max(1, min(CPUS, len(scens)))
    idx = [list(range(k, len(scens), n)) for k in range(n)]
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda k: drive([scens[i] for i in idx[k]], variant, workdir, "%s-%d" % (tag, k)), range(n)))
    traces = {}; crashes = []
    for k, (tr, cr) in enumerate(res):
        for i, lines in tr: traces[idx[k][i]] = lines
        crashes += cr
    return traces, crashes

def chunks(trs, workdir, tag, nchunks=CPUS, limit=60000):
    """writes the traces into files; scenarios of one group stay together, and the same scenario in all variants"""
    groups = []; last = None
    idx = sorted({k for _, t in trs for k in t})
    nscen = 0
    for i in idx:
        ls = [t[i] for _, t in trs if i in t]
        nscen += len(ls)
        g = json.loads(ls[0][0]).get("g", "")
        if g and g == last: groups[-1].extend(ls)
        else: groups.append(ls)
        last = g
    w = lambda g: sum(len(x) for x in g)
    total = sum(w(g) for g in groups)
    n = max(1, min(max(nchunks, total // limit + 1), len(groups)))
    files = [[] for _ in range(n)]; size = [0] * n
    for g in sorted(groups, key=w, reverse=True):
        k = size.index(min(size)); files[k].append(g); size[k] += w(g)
    out = []
    for k, gs in enumerate(files):
        if not gs: continue
        p = os.path.join(workdir, "%s.%d.ndjson" % (tag, k))
        with open(p, "w") as f:
            for g in gs:
                for ls in g: f.writelines(ls)
        out.append(p)
    return out, total, nscen

def validate(module, files, timeout=800, workers=CPUS):
    """runs the trace specification over the files; returns (bad, counters, states, transitions)"""
    def one(p):
        lost = []
        while True:
            rc, out = tlc.tlc(module, env={"TRACE": p}, timeout=timeout, heap="3g")
            rep = tlc.report(out)
            if rc == 0 and rep is not None: break
            # A trace that the specification cannot even evaluate (a record that is missing something, a vector of an
            # impossible length) is not one of its behaviours: the scenario counts as a departure, the rest is still checked.
            n = tlc.stuck_at(out)
            lines = open(p, errors="replace").readlines()
            if n is None or n > len(lines) or len(lost) >= 5:
                if lost: rep = dict(bad=[], cnt={}); out = ""; break
                keep = "/tmp/tlc-fail-%d.txt" % os.getpid()
                with open(keep, "w") as f: f.write(out)
                raise InfraError("trace specification %s failed on %s (see %s): %s" % (module, p, keep, out[-1500:]))
            heads = [0] + [k + 1 for k, x in enumerate(lines) if x == '{"e":"end"}\n']
            k = max(j for j, h in enumerate(heads[:-1]) if h < n)
            name = json.loads(lines[heads[k]])["n"]
            lost.append((n, name, "trace", "not a behaviour of the specification: " + lines[n - 1].strip()[:300]))
            del lines[heads[k]:heads[k + 1]]
            if not lines: rep = dict(bad=[], cnt={}); out = ""; break
            with open(p, "w") as f: f.writelines(lines)
        os.unlink(p)
        rep["bad"] = list(rep["bad"]) + lost
        return p, rep, tlc.stats(out)
    bad = []; cnt = {}; st = 0; tr = 0
    with ThreadPoolExecutor(workers) as ex:
        for p, rep, (gen, dist) in ex.map(one, files):
            for b in rep["bad"]: bad.append((p,) + tuple(b))
            for k, v in rep["cnt"].items(): cnt[k] = cnt.get(k, 0) + v
            st += dist; tr += gen
    return bad, cnt, st, tr
