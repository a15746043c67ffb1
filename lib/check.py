"""check.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import json, os, sys, time, tempfile, shutil, random, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, tlc, conf
from conf import InfraError

def known():
    p = os.path.join(build.VERIF, "known_findings.jsonl"); r = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("{"): r.append(json.loads(line))
    return r

def run_job(j, wd, k):
    """returns (violations, stats)"""
    tag = "j%d" % k
    trs = []; viol = []
    variants = [v for v in j.variants if v != "tsan" or conf.runnable(v, wd)]
    with ThreadPoolExecutor(len(variants) or 1) as ex:
        res = list(ex.map(lambda v: conf.drive_parallel(j.scens, v, wd, tag + v), variants))
    for v, (parts, crashes) in zip(variants, res):
        trs.append((v, parts))
        for sc, why in crashes: viol.append(dict(scenario=sc, variant=v, aspect="crash", what=why))
    if not trs: return viol, dict(label=j.label, scenarios=0, trace_lines=0, states=0, transitions=0, events={}, other_aspects={}, skipped="the thread sanitizer does not run here")
    files, nlines, nscen = conf.chunks(trs, wd, tag)
    bad, cnt, st, tr = conf.validate(j.spec, files)
    byname = {}
    for s in j.scens:
        for x in [s] + s.get("parts", []): byname.setdefault(x["n"], s)
    other = {}
    for p, line, name, aspect, what in bad:
        if aspect in j.aspects or aspect == "trace":
            viol.append(dict(scenario=byname.get(name, dict(n=name)), variant="+".join(j.variants), aspect=aspect, what=what, line=line))
        else: other[aspect] = other.get(aspect, 0) + 1
    return viol, dict(label=j.label, scenarios=nscen, trace_lines=nlines, states=st, transitions=tr, events=cnt, other_aspects=other)

def sample(scens, r, n=2, limit=2500):
    out = []
    for s in r.sample(scens, min(n, len(scens))):
        t = json.dumps(s)
        out.append(s if len(t) < limit else t[:limit] + "...")
    return out

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import props
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    wd = tempfile.mkdtemp(prefix="pooya-%s-" % prop)
    try:
        r = random.Random("%s/%d" % (prop, seed))
        P = props.PROPS[prop]
        with ThreadPoolExecutor(4) as ex:
            mcs = [(m, ex.submit(tlc.model_check, **m)) for m in P.mc(tier)]
            build.build_java()
            jobs = P.jobs(r, tier)
            for v in sorted({v for j in jobs for v in j.variants}): build.build(v)
            viol = []; stats = []
            for k, j in enumerate(jobs):
                a, b = run_job(j, wd, k); viol += a; stats.append(b)
            mc = []
            for m, f in mcs:
                x = f.result()
                if not x["ok"]: raise InfraError("model checking of %s failed:\n%s" % (x["module"], x["out"][-3000:]))
                mc.append(dict(module=x["module"], states=x["states"], transitions=x["transitions"]))
        kf = [e for e in known() if e.get("property") == prop and e.get("status") == "finding"]
        real = []; seen = set()
        for v in viol:
            hit = [e for e in kf if e["scenario"] == v["scenario"]["n"] and e["aspect"] == v["aspect"]]
            if hit:
                if hit[0]["what"] not in seen: print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
                seen.add(hit[0]["what"])
            else: real.append(v)
        states = sum(x["states"] for x in mc) + sum(x["states"] for x in stats)
        trans = sum(x["transitions"] for x in mc) + sum(x["transitions"] for x in stats)
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=states, transitions=trans, traces_validated_against_impl=sum(x["scenarios"] for x in stats),
                                samples=[s for j in jobs for s in sample(j.scens, r)][:6],
                                model_checked=mc, conformance=stats),
                  assumptions=P.assumptions, wall_s=round(time.time() - t0, 1), violations=len(real))
        with open(os.path.join(build.VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if real:
            rd = os.path.join(build.VERIF, "build", "replay"); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, prop + ".json")
            with open(rp, "w") as f: json.dump(real[:50], f, indent=1)
            for v in real[:12]: print("  %s [%s] %s: %s" % (v["scenario"].get("n"), v["variant"], v["aspect"], v["what"][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        print("%s: held on %d scenarios (%d trace events), %d model states; %.1f s" %
              (prop, sum(x["scenarios"] for x in stats), sum(x["trace_lines"] for x in stats), sum(x["states"] for x in mc), time.time() - t0))
        return 0
    except (InfraError, build.BuildError, tlc.TlcError) as e:
        print("ERROR", prop, e); return 3
    except Exception:
        traceback.print_exc(); return 3
    finally:
        shutil.rmtree(wd, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
