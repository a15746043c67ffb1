"""What each property's check consists of: model-checking runs, scenario families, and the aspects that decide it."""
import copy, random
from check_types import Job
from fam import *

class P:
    def __init__(self, jobs, mc=None, assumptions=()):
        self._jobs = jobs; self._mc = mc; self.assumptions = BASE + list(assumptions)
    def jobs(self, r, tier): return self._jobs(r, tier)
    def mc(self, tier): return self._mc(tier) if self._mc else []

BASE = ["IEEE-754 binary64 arithmetic of the JVM equals the compiler's up to a relative 1e-9 (numbers are compared with that allowance)",
        "scenarios use the public interface of the library only; gcc -O0 with address and undefined-behaviour sanitizers, unless said otherwise"]
PROPS = {}

# --- model checking ----------------------------------------------------------------------------------------------------
def MC(quick, thorough=()):
    """quick/thorough: (module, cfg) pairs"""
    def f(tier):
        return [dict(module=m, cfg=c, workers=2 if tier == "quick" else 4, timeout=850) for m, c in list(quick) + (list(thorough) if tier != "quick" else [])]
    return f
MC_SCHED = MC([("MCSched", "MCSchedLive")], [("MCSched", "MCSched"), ("MCSched", "MCSchedDeep")])
MC_DYN = MC([("MCDyn", "MCDyn")], [("MCDyn", "MCDynDeep"), ("MCSystem", "MCSystem")])
MC_SYS = MC([("MCSystem", "MCSystem")], [("MCDyn", "MCDyn")])
MC_RUN = MC([("MCRun", "MCRun"), ("MCSystem", "MCSystem")])

# --- behaviours generated from the specifications ----------------------------------------------------------------------
def gen_sched(r, count, engines=("sim", "reuse", "fast")):
    """every small model of MCSched (or a sample) as a scenario"""
    import tlc
    graphs, _, _ = tlc.generate("MCSched", "MCSchedGen")
    if count and count < len(graphs): graphs = r.sample(graphs, count)
    out = []
    for q, g in enumerate(graphs):
        N = len(g); need = [set(b["i"]) if b["k"] == "alg" else set() for b in g]
        def reach(ext):
            have = {k + 1 for k in range(N) if g[k]["k"] == "int"} | ({0} if ext else set())
            while True:
                more = {k + 1 for k in range(N) if need[k] <= have} - have
                if not more: return have
                have |= more
        def feedable(have): return all(set(b["i"]) <= have for b in g if b["k"] != "alg")
        # what a memory remembers and an integrator integrates must be there
        if not feedable(reach(True)): continue
        full = len(reach(True)) == N + 1
        eng = engines[q % len(engines)]
        m = Model("sched-%d" % q); x = [m.sig(nm="y%d" % (k + 1)) for k in range(N)]; e = m.sig(nm="ext")
        ids = lambda s: [e if j == 0 else x[j - 1] for j in sorted(s)]
        for k, b in enumerate(g):
            if b["k"] == "alg":
                if b["i"]: m.blk("add", ids(b["i"]), [x[k]], [k])
                else: m.blk("const", [], [x[k]], [k + 1])
            elif b["k"] == "mem": m.blk("mem", ids(b["i"]), [x[k]], [10 + k])
            else: m.blk("integ", ids(b["i"]), [x[k]], [20 + k])
        off = None
        if eng != "fast" and feedable(reach(False)) and r.random() < .5: off = r.choice([.25, .5, .75])
        if any(0 in b["i"] for b in g): m.ext(e, ["lin", 1, .5], off=off)
        st = any(b["k"] == "int" for b in g)
        m.sim(eng, **(dict(stp="script", sug=["r1", "r0.5", "r2", "r1"], extra=1) if st else dict(stp="none")))
        m.init(0)
        if full or eng != "fast":
            for t in (.25, .5, .75, 1): m.run(t, .0625, .25)
        out.append(m.out())
    return out

def gen_run(r, count):
    """the transitions of the run control of MCRun, replayed with a stepper that replies what the specification chose"""
    import tlc
    beh, _, _ = tlc.generate("MCRun", "MCRunGen")
    if count and count < len(beh): beh = r.sample(beh, count)
    out = []
    for q, b in enumerate(beh):
        m = Model("ctlgen-%d" % q); x, v = m.sig(), m.sig()
        m.ext(v, ["lin", 1, .5]); m.blk("integ", [v], [x], [0]); y = m.sig(); m.blk("mem", [x], [y], [0])
        m.sim(ENG[q % 3], "script", sug=[k / 32 for k in b["sug"]]); m.init(0)
        for t in b["runs"]: m.run(t / 32, b["mn"] / 32, b["mx"] / 32)
        out.append(m.out())
    return out

def n(tier, q, t): return q if tier == "quick" else t

# --- simulations -------------------------------------------------------------------------------------------------------
def c01(r, tier):
    k = n(tier, 1, 12); sc = []
    for order in ("reverse", "random", "topo"):
        sc += simple(r, 14 * k, "g-" + order, n=18, order=order, nest=3, types="ssa", late=.3, T=1.0, n_runs=2)
    sc += simple(r, 6 * k, "gfeed", n=24, kinds=["mem", "add", "gain", "integ", "trig", "delay", "inival", "pipe"], order="reverse", T=1.0)
    sc += simple(r, 10 * k, "gmix", n=14, types="siba", nest=2, T=1.0)
    for kk, seed, mk in models(r, 18 * k, "loop", n=10, loop=2, kinds=ALG + ["mem", "integ"], nest=1):
        eng = ENG[kk % 3]; m = mk().finish(); m.sim(eng, **stepper(r)); m.init(0)
        if eng != "fast":
            m.run(.5, .0625, .25); m.run(1)
        sc.append(m.out())
    for kk, seed, mk in models(r, 14 * k, "miss", n=12, kinds=ALG + ["inival"], nin=4):
        m = mk().finish()
        for e in m.d["ext"]:
            if r.random() < .6: e["off"] = S(dy(r, .25, 1.5))
        for e in m.d["ext"]:
            if "off" not in e and r.random() < .3: e["on"] = S(dy(r, .25, 1.5))
        m.sim(ENG[kk % 2], stp="none"); runs(r, m, n=5, T=2); sc.append(m.out())
    # long chains, deep and connected submodels, models of a single block
    for kk, (N, w) in enumerate([(n(tier, 150, 400), 1), (n(tier, 40, 120), 4), (n(tier, 130, 300), 2)]):
        for eng in (ENG if tier != "quick" else ENG[kk:kk + 1] + ENG[(kk + 1) % 3:(kk + 1) % 3 + 1]):
            m = chain(r, "chain-%d-%s" % (kk, eng), N, w, ("reverse", "random", "reverse")[kk], (0, 3, 14)[kk], kk == 1)
            m.sim(eng, **(dict(stp="euler") if kk == 1 else dict(stp="none"))); m.init(0); m.run(.5); m.run(1); sc.append(m.out())
    for d in simple(r, 8 * k, "wired", n=12, types="ssa", nest=3, T=1, n_runs=2): sc.append(wired_subs(r, d))
    for d in simple(r, 3 * k, "deep", n=12, T=1, n_runs=2): sc.append(deep(r, d, r.randint(8, 25)))
    sc += single(r, 8 * k, "single")
    sc += namesakes(r, simple(r, 8 * k, "names", n=12, types="ssa", nest=1, T=1, n_runs=2))
    return [Job(sc, aspects=("order", "err")), Job(gen_sched(r, n(tier, 400, 0)), aspects=("order", "err"), label="generated")]
PROPS["C01"] = P(c01, MC_SCHED)

def c02(r, tier):
    k = n(tier, 1, 12); sc = []
    def family(name, count, kinds=None, **kw):
        for kk, seed, mk in models(r, count, name, kinds=kinds, **kw):
            grp = "%s%d" % (name, kk)
            m = mk(grp=grp).finish(); m.sim("sim", **stepper(r)); runs(r, m, n=3, T=1.5)
            d = m.out(); vs = [d, with_engine(d, "reuse"), with_engine(d, "fast")]
            if not d["buses"]:
                for q in range(2):
                    x = redeclare(r, d) if r.random() < .5 else renest(r, d, r.randint(1, 4))
                    vs.append(with_engine(x, r.choice(ENG)))
            for q, v in enumerate(vs): v["n"] = "%s/%d" % (grp, q); v["lean"] = 1; sc.append(v)
    family("mix", 50 * k, n=14, types="ssa", nest=2)
    family("types", 25 * k, n=12, types="siba", nest=1)
    family("states", 35 * k, n=12, kinds=["integ", "trig", "so2", "add", "gain", "mem", "delay", "deriv", "pipe"], types="sa", nest=1)
    # large models: long chains, deep nesting, connected submodels, many states of all sizes
    def group(grp, ds):
        for q, v in enumerate(ds): v = copy.deepcopy(v); v.update(g=grp, n="%s/%d" % (grp, q), lean=1); sc.append(v)
    for kk in range(n(tier, 6, 40)):
        m = chain(r, "x", r.choice([40, 80, 120] if kk % 2 else [60, 150, 300]), r.randint(1, 2), "reverse", 0, kk % 2); m.sim("sim", **(stepper(r) if kk % 2 else dict(stp="none")))
        m.init(0); m.run(.5, .125, .5); m.run(1, .125, .5); d = m.out()
        group("chain%d" % kk, [d, with_engine(d, "reuse"), with_engine(d, "fast"), with_engine(redeclare(r, d), "reuse"), with_engine(deep(r, d, 20 if len(d["blks"]) < 100 else 5), r.choice(ENG))])
    for kk, m in mixed(r, 10 * k, "large", parts=r.randint(3, 6), n=12):
        m.sim("sim", **stepper(r)); runs(r, m, n=2, T=1); d = m.out()
        group("large%d" % kk, [d, with_engine(d, "reuse"), with_engine(d, "fast"), with_engine(renest(r, d, 6), r.choice(ENG)), wired_subs(r, renest(r, d, 3))])
    # every small model, in every order of declaration, on every simulator
    gs = []
    for d in gen_sched(r, n(tier, 120, 1200), ("sim",)):
        if any("off" in e for e in d["ext"]) : continue
        perms = [d] + [redeclare(r, d) for _ in range(2)]
        for q, v in enumerate(perms):
            for eng in ("sim", "reuse"):
                w = with_engine(v, eng); w.update(g=d["n"], n="%s/%d%s" % (d["n"], q, eng), lean=1); gs.append(w)
    return [Job(sc, aspects=("cmp", "err")), Job(gs, aspects=("cmp", "err"), label="generated")]
PROPS["C02"] = P(c02, MC_SCHED)

def c03(r, tier):
    k = n(tier, 1, 12); sc = []
    for via in ("cb", "root", "mix"):
        sc += simple(r, 14 * k, "via-" + via, nin=4, via=via, types="siba", nest=1, T=1.5)
    for kk, seed, mk in models(r, 10 * k, "nocb", nin=3, via="root", n=10, types="ssa"):
        m = mk().finish(); m.sim(ENG[kk % 3], cb=0, **stepper(r)); runs(r, m, n=3, T=1.5); sc.append(m.out())
    for kk, seed, mk in models(r, 8 * k, "stateless", nin=4, via="mix", n=10, kinds=ALG + ["mem", "deriv", "inival"], types="siba"):
        m = mk().finish(); m.sim(ENG[kk % 3], stp="none"); runs(r, m, n=8, T=3, repeat=True); sc.append(m.out())
    sc += wandering(r, 6 * k, "wander", n=10, nin=3, via="mix", types="siba", nest=1)
    sc += plateau(r, 16 * k, "plateau") + unsteady(r, simple(r, 8 * k, "unsteady", n=10, nin=3, via="mix", types="siba", nest=1, T=1, n_runs=2, stp=r.choice(["euler", "rk4", "script"])))
    for kk, seed, mk in models(r, 8 * k, "miss", n=10, kinds=ALG + ["inival"], nin=4, via="mix"):
        m = mk().finish()
        for e in m.d["ext"]:
            if r.random() < .3: e["on"] = S(dy(r, .25, 1.5))
            elif r.random() < .6: e["off"] = S(dy(r, .25, 1.5))
        m.sim(ENG[kk % 2], stp="none"); runs(r, m, n=6, T=2); sc.append(m.out())
    return [Job(sc, aspects=("fresh", "err"))]
PROPS["C03"] = P(c03)

V = ["Infinity", "-Infinity", "NaN", "1e150", "-1e150", "1e-150", "5e-324", "0", "-0.0", "1", "-2.5", "0.1"]
def special_cross(r):
    """each operation on each pair of special numbers, in arrays and scalars"""
    m = Model("special-arrays"); z = len(V); A = []
    for k in range(z): A.append(m.sig("a", z)); m.blk("const", [], [A[-1]], V[k:] + V[:k])
    for w in ("add", "mul", "sub", "div"):
        for k in range(z): o = m.sig("a", z); m.blk(w, [A[0], A[k]], [o], [0 if w == "add" else 1] * z if w in ("add", "mul") else ())
    G = V + ["2", "-1"]
    for g in G: o = m.sig("a", z); m.blk("gain", [A[0]], [o], [g])
    for w in ("pipe", "siso", "sat", "mem"): o = m.sig("a", z); m.blk(w, [A[0]], [o], V if w == "mem" else ())
    m.sim("sim", stp="none"); m.init(0); m.run(.5)
    out = [m.out()]
    m = Model("special-scalars"); B = []
    for v in V: B.append(m.sig()); m.blk("const", [], [B[-1]], [v])
    for a in range(z):
        for b in range(z):
            for w in ("add", "mul", "sub", "div") if (a + b) % 3 == 0 else (r.choice(["add", "mul"]), r.choice(["sub", "div"])): o = m.sig(); m.blk(w, [B[a], B[b]], [o], [0 if w == "add" else 1] if w in ("add", "mul") else ())
            if (a + b) % 2: o = m.sig("b"); m.blk("cmp", [B[a], B[b]], [o])
        for g in G: o = m.sig(); m.blk("gain", [B[a]], [o], [g])
    m.sim("fast", stp="none"); m.init(0)
    return out + [m.out()]

def special(r, count):
    """infinities, NaN, signed zeros, huge and tiny numbers"""
    out = []
    for kk in range(count):
        m = Model("special-%d" % kk); ty = "sa"[kk % 2]; z = 1 if ty == "s" else r.randint(2, 6)
        new = lambda: m.sig(ty, z)
        src = []
        for _ in range(4):
            x = new(); m.blk("const", [], [x], [r.choice(V) for _ in range(z)]); src.append(x)
        x = new(); m.ext(x, ["stp", 1, r.choice(V), r.choice(V)] if z == 1 else ["stp", 1, "Infinity", "NaN"]); src.append(x)
        x = new(); m.blk("source", [], [x], fn=["c", r.choice(V[:3])]); src.append(x)
        for _ in range(12):
            a, b = r.choice(src), r.choice(src); o = new()
            w = r.choice(["add", "mul", "sub", "div", "gain", "pipe", "sat", "mem", "inival", "siso"])
            if w in ("add", "mul"): m.blk(w, [a, b], [o], [0 if w == "add" else 1] * z)
            elif w in ("sub", "div"): m.blk(w, [a, b], [o])
            elif w == "gain": m.blk(w, [a], [o], [r.choice(["0", "-1", "2", "-0.0", "1e-150"])])
            elif w == "mem": m.blk(w, [a], [o], [r.choice(V) for _ in range(z)])
            else: m.blk(w, [a], [o])
        if ty == "s":
            for _ in range(3): o = m.sig("b"); m.blk("cmp", [r.choice(src), r.choice(src)], [o])
        m.sim(ENG[kk % 3], stp="none"); m.init(0)
        for t in (.5, 1, 1.5, 2): m.run(t)
        out.append(m.out())
    return out

def c04(r, tier):
    k = n(tier, 1, 15); sc = []
    sc += simple(r, 25 * k, "alg", n=18, kinds=ALG, types="siba", feedback=False, nest=1, stp="none", n_runs=6, T=3)
    sc += simple(r, 15 * k, "alga", n=14, kinds=ALG, types="a", arr=(1, 9), feedback=False, stp="none", n_runs=4, T=3)
    sc += simple(r, 10 * k, "dyn", n=16, kinds=ALG + ["mem", "integ"], types="sa", T=1.0)
    # many inputs
    for kk in range(4 * k):
        m = Model("many-%d" % kk); ty = r.choice("sa"); z = 1 if ty == "s" else r.randint(2, 20)
        xs = [m.sig(ty, z) for _ in range(r.randint(8, 23))]
        for x in xs: m.ext(x, [r.choice(["lin", "sq"]), dy(r, -1, 1), dy(r, -1, 1)])
        for kind in ("add", "mul", "sofn"):
            o = m.sig(ty, z); m.blk(kind, xs, [o], [dy(r, -2, 2) for _ in range(1 if kind == "sofn" else z)])
        m.sim(ENG[kk % 3], stp="none"); runs(r, m, n=4, T=2); sc.append(m.out())
    sc += wandering(r, 8 * k, "wander", n=14, kinds=ALG, types="siba", nest=1)
    sc += special(r, 8 * k) + special_cross(r)
    # large arrays
    sc += simple(r, 3 * k, "large", n=12, kinds=ALG, types="a", arr=(60, 150), feedback=False, stp="none", n_runs=2, T=2)
    return [Job(sc, aspects=("alg", "err"))]
PROPS["C04"] = P(c04)

def dyn(name, kind, aspect, extra=(), types="sa", runkw=None):
    def jobs(r, tier):
        k = n(tier, 1, 12); sc = []
        others = ["add", "gain", "pipe", "sub", "source", "integ"]
        sc += simple(r, 25 * k, kind, n=10, must=[kind] * 3, kinds=others + [kind], types=types, T=2.0, nest=1)
        sc += simple(r, 15 * k, kind + "x", n=14, must=[kind] * 2, types=types, T=1.5, nest=2)
        sc += simple(r, 10 * k, kind + "n", n=8, must=[kind] * 2, kinds=["add", "gain", "pipe", "source", kind], types=types,
                     stp="euler" if kind in ("integ", "trig") else "none", n_runs=10, T=3)
        if kind != "delay": sc += simple(r, 10 * k, kind + "r", n=8, must=[kind] * 2, kinds=["add", "gain", "pipe", "source", "integ", kind], types=types, T=2, repeat=True, tiny=True)
        else: sc += simple(r, 10 * k, kind + "r", n=8, must=[kind] * 2, kinds=["add", "gain", "pipe", "source", "integ", kind], types=types, T=2, tiny=True)
        if kind in ("mem", "deriv", "inival"):
            sc += wandering(r, 10 * k, kind + "w", n=8, must=[kind] * 2, kinds=["add", "gain", "pipe", "source", kind], types=types, nest=1)
        # elements of very different magnitudes, changing slowly
        sc += simple(r, 8 * k, kind + "d", n=6, must=[kind] * 3, kinds=["pipe", "gain", kind], types="aas" if "s" in types else "a", nin=3, drift=.8, arr=(2, 4), feedback=False,
                     stp="euler" if kind in ("integ", "trig") else "none", n_runs=6, T=2)
        sc += unsteady(r, simple(r, 12 * k, kind + "u", n=8, must=[kind] * 2, kinds=["add", "gain", "pipe", "source", kind], types=types, nest=1, nin=3,
                                 stp=r.choice(["euler", "rk4"]) if kind in ("integ", "trig") else "none", n_runs=5, T=2))
        if kind in ("integ", "trig"): sc += slow(r, 16 * k, kind + "s")
        if kind in ("integ", "mem", "deriv"): sc += plateau(r, 10 * k, kind + "p")
        for f in extra: sc += f(r, tier)
        return [Job(sc, aspects=(aspect, "err"))]
    return jobs

def mem_loops(r, tier):
    """feedback loops through memories, many steps, all types"""
    k = n(tier, 1, 10); sc = []
    for kk in range(9 * k):
        m = Model("memloop-%d" % kk)
        u = m.sig(); m.ext(u, ["lin", 1, .5])
        a, b, c = m.sig(), m.sig(), m.sig()
        m.blk("mem", [c], [a], [dy(r, -2, 2)]); m.blk("gain", [a], [b], [.5]); m.blk("add", [b, u], [c], [0])
        # a chain of memories declared in an adverse order
        prev = c
        for _ in range(r.randint(1, 5)):
            q = m.sig(); m.blk("mem", [prev], [q], [dy(r, -2, 2)]); prev = q
        # memory of itself, integer and boolean memories
        s = m.sig(); m.blk("mem", [s], [s], [3])
        i, j = m.sig("i"), m.sig("i"); m.ext(i, ["lin", 0, 7]); m.blk("mem", [i], [j], [-4])
        p, q = m.sig("b"), m.sig("b"); m.ext(p, ["pul", dy(r, 0, 1), dy(r, 1, 2)]); m.blk("mem", [p], [q], [r.randint(0, 1)])
        if kk % 2:
            x, v = m.sig(), m.sig(); m.blk("gain", [x], [v], [-1]); m.blk("integ", [v], [x], [1]); o = m.sig(); m.blk("mem", [x], [o], [7])
        r.shuffle(m.d["decl"])
        m.sim(ENG[kk % 3], **(stepper(r) if kk % 2 else dict(stp="none"))); runs(r, m, n=8, T=4); sc.append(m.out())
    return sc
PROPS["C05"] = P(dyn("mem", "mem", "mem", (mem_loops,), types="siba"), MC_DYN)

def delay_long(r, tier):
    """long runs with irregular steps: expired samples are discarded over and over"""
    k = n(tier, 1, 8); sc = []
    for kk in range(6 * k):
        m = Model("delaylong-%d" % kk); ty = "sa"[kk % 2]; z = 1 if ty == "s" else 2
        u = m.sig(ty, z); m.ext(u, [r.choice(["lin", "sq"]), 1, .5]); life = r.choice([.25, .5, 1.0])
        ini = m.sig(ty, z); m.blk("const", [], [ini], [9] * z)
        for dl in (0, life, life / 2, life * .3, life * .99, -.125):
            d = m.sig(); m.blk("const", [], [d], [dl]); o = m.sig(ty, z); m.blk("delay", [u, d, ini], [o], [life])
        d = m.sig(); m.ext(d, ["stp", dy(r, 0, 5), life, life / 4]); o = m.sig(ty, z); m.blk("delay", [u, d, ini], [o], [life])
        if kk % 3:
            x = m.sig(); m.blk("integ", [d], [x], [0])
            m.sim(ENG[kk % 3], "script", sug=[r.choice(["r1", "r2", "r0.5", "0.01", "0.3", "0.0625", "0.001"]) for _ in range(200)])
            m.init(0); t = 0
            for _ in range(r.randint(2, 5)): t += dy(r, .5, 2.5); m.run(t, .004, .25)
        else:
            m.sim(ENG[r.randint(0, 2)], stp="none"); m.init(0); t = 0
            for _ in range(n(tier, 80, 200)): t += r.choice([.004, .03125, .0625, .1, .3, 1.0 if r.random() < .1 else .02]); m.run(t)
        sc.append(m.out())
    # many samples that all are still needed
    for kk in range(n(tier, 1, 3)):
        m = Model("delaymany-%d" % kk); u = m.sig(); m.ext(u, ["sq", 1, .5]); ini = m.sig(); m.blk("const", [], [ini], [9])
        for dl in (1, .99, .5, .001):
            d = m.sig(); m.blk("const", [], [d], [dl]); o = m.sig(); m.blk("delay", [u, d, ini], [o], [1.0])
        N = n(tier, 1100, 2500)
        m.sim(ENG[kk % 3], stp="none"); m.init(0); t = 0
        for _ in range(int(N * 1.3)): t += r.choice([.9, 1, 1.1]) / N; m.run(t)
        sc.append(m.out())
    return sc
PROPS["C06"] = P(dyn("delay", "delay", "dly", (delay_long,)), MC_DYN)
def deriv_repeat(r, tier):
    k = n(tier, 1, 10)
    return simple(r, 12 * k, "drep", n=8, must=["deriv"] * 3, kinds=["add", "gain", "source", "deriv", "mem", "integ"], types="sa", repeat=True)
PROPS["C07"] = P(dyn("deriv", "deriv", "der", (deriv_repeat,)), MC_DYN)
def integ_mix(r, tier):
    k = n(tier, 1, 10); sc = []
    for arr in ((1, 1), (2, 3), (5, 20)):
        sc += simple(r, 10 * k, "imix", n=12, must=["integ"] * 4 + ["trig", "so2"], kinds=["add", "gain", "pipe", "source", "integ"], types="sa", arr=arr, T=1.5, nest=2)
    for stp in ("euler", "rk4", "script"):
        for kk, m in mixed(r, 5 * k, "isizes-" + stp, n=5, must=["integ"] * 2, kinds=["add", "gain", "integ", "trig", "so2", "source"], nin=1):
            m.sim(ENG[kk % 3], **stepper(r, stp)); runs(r, m, n=2, T=1); sc.append(m.out())
    sc += simple(r, 10 * k, "irep", n=10, must=["integ"] * 3, kinds=["add", "gain", "source", "integ", "so2", "trig"], types="sa", repeat=True)
    return sc
PROPS["C08"] = P(dyn("integ", "integ", "int", (integ_mix,)), MC_SYS)
def trig_dir(r, tier):
    """triggers seen in accepted steps, in trial evaluations only, in rejected steps only, several in a row"""
    k = n(tier, 1, 10); sc = []
    for kk in range(24 * k):
        m = Model("trig-%d" % kk); ty = "sa"[kk % 2]; z = 1 if ty == "s" else r.randint(1, 3)
        u = m.sig(ty, z); m.ext(u, ["lin", 1, .5])
        for _ in range(r.randint(1, 3)):
            t = m.sig("b"); a = dy(r, 0, 2, 32); m.ext(t, r.choice([["pul", a, a + dy(r, .03125, 1, 32)], ["stp", a, 0, 1], ["c", 1], ["stp", a, 1, 0]]))
            o = m.sig(ty, z); m.blk("trig", [u, t], [o], [dy(r, -2, 2) for _ in range(z)])
        # a trigger that depends on the state itself
        if ty == "s":
            th = m.sig(); m.blk("const", [], [th], [dy(r, 0, 2)]); t = m.sig("b"); x = m.sig()
            m.blk("cmp", [x, th], [t]); m.blk("trig", [u, t], [x], [0])
        m.sim(ENG[kk % 3], **stepper(r)); runs(r, m, n=4, T=3, repeat=kk % 4 == 0); sc.append(m.out())
    return sc
PROPS["C09"] = P(dyn("trig", "trig", "trg", (trig_dir,)), MC_SYS)
def ini_gone(r, tier):
    """inputs that are there only at first, or only later"""
    k = n(tier, 1, 10); sc = []
    for kk, seed, mk in models(r, 14 * k, "inigone", n=8, kinds=["add", "gain", "pipe", "source", "inival"], must=["inival"] * 3, types="sa", nin=3, nest=1):
        m = mk().finish()
        for e in m.d["ext"]:
            w = r.random()
            if w < .4: e["off"] = S(dy(r, .25, 1.5))
            elif w < .7: e["on"] = S(dy(r, .25, 1.5))
            if w < .2: e["on"] = S(dy(r, 0, .25, 16))
        m.sim(ENG[kk % 2], stp="none"); runs(r, m, n=7, T=2, t0=0) if kk % 2 else wander(r, m); sc.append(m.out())
    return sc
PROPS["C10"] = P(dyn("inival", "inival", "ini", (ini_gone,)), MC_DYN)

def c12(r, tier):
    k = n(tier, 1, 12); sc = []
    for kk in range(60 * k):
        m = Model("ctl-%d" % kk); x, v = m.sig(), m.sig()
        m.ext(v, ["lin", 1, .5]); m.blk("integ", [v], [x], [0]); y = m.sig(); m.blk("mem", [x], [y], [0])
        m.sim(ENG[kk % 3], "script", sug=[r.choice(["r1", "r2", "r0.5", "r0.25", "r0.75", "0.03125", "0.0625", "0.015625", "5", "0.5", "-1", "0"]) for _ in range(r.randint(1, 40))])
        if kk % 3 == 0: m.d["ops"][-1]["stp"]["sug"] = [r.choice(["r0.9", "r0.95", "r0.99", "r0.999999", "r1.000001", "r1.01", "r0.8", "r1.2", "r1", "r2", "r0.5"]) for _ in range(r.randint(5, 60))]
        if r.random() < .7: m.init(0)
        t = 0
        for _ in range(r.randint(1, 4)):
            t += dy(r, .0625, 2, 32); mn = r.choice([.015625, .03125, .0625, .125]); m.run(t, mn, mn * r.choice([1.5, 2, 4, 8, 64]))
            if r.random() < .2: m.run(t, .1, .2)
        sc.append(m.out())
    for kk in range(8 * k):
        m = Model("rkf-%d" % kk); x, v, f = m.sig(), m.sig(), m.sig()
        m.ext(f, ["stp", dy(r, .25, 2), 0, r.choice([10, 100, 1000])]); m.blk("integ", [v], [x], [1]); m.blk("add", [f, x], [v], [0])
        m.sim(ENG[kk % 3], "rkf45"); m.init(0); m.run(dy(r, .5, 2), .001, 1); m.run(3, .0625, .5)
        sc.append(m.out())
    return [Job(sc, aspects=("step", "ctl", "err")), Job(gen_run(r, n(tier, 300, 0)), aspects=("step", "ctl", "err"), label="generated")]
PROPS["C12"] = P(c12, MC_RUN)

def c13(r, tier):
    k = n(tier, 1, 12)
    sc = simple(r, 30 * k, "hooks", n=10, kinds=["mem", "integ", "trig", "delay", "deriv", "add", "gain", "source", "inival"], types="sa", nest=3, T=2)
    sc += simple(r, 10 * k, "hooksn", n=8, kinds=["mem", "deriv", "add", "gain", "source", "inival"], types="sa", nest=3, stp="none", n_runs=6, T=2)
    sc += simple(r, 15 * k, "hooksr", n=10, kinds=["mem", "integ", "trig", "so2", "deriv", "add", "gain"], types="sa", nest=1, T=2, repeat=True)
    sc += unsteady(r, simple(r, 12 * k, "hooksu", n=8, kinds=["mem", "integ", "trig", "deriv", "delay", "add", "gain", "inival"], types="sa", nest=1, T=1, n_runs=3, stp="script"))
    return [Job(sc, aspects=("commit", "hook", "ctl", "retry", "err"))]
PROPS["C13"] = P(c13, MC_SYS)

def c14(r, tier):
    k = n(tier, 1, 12); sc = []
    for kk, seed, mk in models(r, 50 * k, "time", n=8, kinds=["mem", "integ", "trig", "so2", "deriv", "add", "gain", "source"], types="sa", must=["integ"]):
        m = mk().finish(); m.sim(ENG[kk % 3], **stepper(r)); t = dy(r, -2, 4)
        if r.random() < .5: m.init(t)
        for _ in range(r.randint(3, 7)):
            what = r.random()
            if what < .15: m.run(t - dy(r, .0625, 2))
            elif what < .35: m.run(t - r.choice([2 ** -8, 2 ** -11, 1e-6, 1e-9, 2 ** -40]), *r.choice([(), (.0625, .25), (.25, 1)]))
            elif what < .5: m.run(t)
            elif what < .6: t += r.choice([2 ** -8, 2 ** -11, 1e-6]); m.run(t, *r.choice([(), (.0625, .25)]))
            else:
                t += dy(r, .0625, 1); m.run(t, .0625, .25)
        sc.append(m.out())
    return [Job(sc, aspects=("time", "ctl", "err", "fresh"))]
PROPS["C14"] = P(c14, MC_SYS)

def c26_more(r, k):
    sc = []
    for stp in ("euler", "rk4", "rkf45", "script"):
        sc += simple(r, 8 * k, "rel-" + stp, n=8, must=["integ"] * 2 + ["trig", "so2"], types="sa", nest=1, T=1.0, n_runs=2, stp=stp)
    sc += wandering(r, 12 * k, "relw", n=10, nin=2, via="mix", types="siba", nest=1)
    sc += bus_random(r, 20 * k, faulty=0) + special(r, 6 * k) + single(r, 10 * k, "relsingle")
    for kk, seed, mk in models(r, 16 * k, "relagain", n=8, kinds=["mem", "integ", "so2", "deriv", "inival", "add", "gain", "source"], types="sa", nest=1, must=["integ"]):
        m = mk().finish(); again(r, m); sc.append(m.out())
    return sc
def c26(r, tier):
    k = n(tier, 1, 10); sc = []
    sc += simple(r, 120 * k, "rel", n=16, types="siba", nest=2, T=1.5)
    sc += simple(r, 60 * k, "relr", n=10, kinds=["mem", "integ", "trig", "so2", "deriv", "add", "gain"], types="sa", nest=1, T=2, repeat=True)
    sc += c26_more(r, k)
    for s in sc: s["g"] = s["n"]; s["lean"] = 1
    import api
    both = dict(spec="TraceApi", variants=("dbg", "rel"))
    return [Job(sc, aspects=("cmp", "err"), variants=("dbg", "rel")),
            Job(api.step_random(r, 60 * k, ["euler", "rk4", "rkf45"]), aspects=("fixed", "rkf45"), label="steps", **both),
            Job(api.sig_random(r, 40 * k, valid=True), aspects=("value", "handle"), label="signals", **both),
            Job(api.hist_random(r, 30 * k, valid=True), aspects=("rows", "track", "csv"), label="histories", **both),
            Job(api.bus_random(r, 30 * k, True) + api.name_random(r, 20 * k) + api.tree_random(r, 20 * k) + api.conn_random(r, 60 * k),
                aspects=("bus", "name", "tree", "conn"), label="interfaces", **both)]
PROPS["C26"] = P(c26)

# --- steppers ------------------------------------------------------------------------------------------------------------
import api
MC_STEP = MC([("MCStepper", "MCStepper")])
def c15(r, tier):
    k = n(tier, 1, 15); sc = []
    for stp in ("euler", "rk4"):
        sc += simple(r, 12 * k, "stp-" + stp, n=10, must=["integ"] * 3 + ["trig"], types="sa", nest=1, T=1.0, n_runs=2, stp=stp)
        sc += plateau(r, 8 * k, "plateau-" + stp, stp=stp) + slow(r, 4 * k, "slow-" + stp)
    return [Job(api.step_random(r, 350 * k, ["euler", "rk4"]), spec="TraceApi", aspects=("fixed",), label="steps"),
            Job(sc, aspects=("stepper", "err"), label="in simulations")]
PROPS["C15"] = P(c15, MC_STEP)
def c16(r, tier):
    k = n(tier, 1, 15)
    sc = simple(r, 20 * k, "stp-rkf45", n=10, must=["integ"] * 3, types="sa", nest=1, T=1.0, n_runs=2, stp="rkf45") + plateau(r, 10 * k, "plateau-rkf45", stp="rkf45")
    return [Job(api.step_random(r, 350 * k, ["rkf45"]), spec="TraceApi", aspects=("rkf45",), label="steps"),
            Job(sc, aspects=("stepper", "err"), label="in simulations")]
PROPS["C16"] = P(c16, MC_STEP)

# --- interfaces ----------------------------------------------------------------------------------------------------------
def facet(aspects, *parts, **kw):
    """parts: (label, function(r, count), quick count, thorough count)"""
    def jobs(r, tier):
        return [Job(f(r, n(tier, q, t)), spec="TraceApi", aspects=aspects, label=lab, **kw) for lab, f, q, t in parts]
    return jobs
def recorded(r, count):
    """a history that records the results of each call of a simulation, read in between and at the end"""
    out = []
    pool = simple(r, count // 2, "rec", n=8, kinds=["mem", "integ", "deriv", "inival", "add", "gain", "source", "func", "cmp", "pipe"], types="siba", nest=1, T=.75, n_runs=6, repeat=True) + \
           simple(r, count // 3, "recd", n=8, kinds=["delay", "add", "gain", "source", "integ", "so2"], types="sa", nest=1, T=.75, n_runs=5) + wandering(r, count // 2, "recw", n=8, nin=2, via="mix", types="siba", nest=1)
    for kk, seed, mk in models(r, count // 3, "recmiss", n=10, kinds=ALG + ["inival"], nin=4, via="mix"):
        m = mk().finish()
        for e in m.d["ext"]:
            if r.random() < .3: e["on"] = S(dy(r, .25, 1.5))
            elif r.random() < .6: e["off"] = S(dy(r, .25, 1.5))
        m.sim(ENG[kk % 2], stp="none"); runs(r, m, n=6, T=2); pool.append(m.out())
    for d in pool:
        ids = r.sample(range(1, len(d["sigs"]) + 1), min(len(d["sigs"]), r.randint(1, 8)))
        h = dict(op="hist", ids=ids, grow=r.choice([1, 2, 3, 5, 1000])); ops = []; begun = False; calls = 0
        def rows(): return dict(op="rows", ids=r.sample(ids, r.randint(1, len(ids))), shrink=r.randint(0, 1))
        for o in d["ops"]:
            if o["op"] in ("init", "run"):
                if not begun: ops.append(h); begun = True
                elif calls and r.random() < .25: ops.append(rows())
                calls += 1
            ops.append(o)
        d["ops"] = ops + ([dict(rows(), ids=ids)] if calls else [])
        out.append(d)
    return out
def c17(r, tier):
    return facet(("rows", "track"), ("generated", lambda r, c: api.hist_gen(r, c, ("read",)), 3000, 0), ("random", lambda r, c: api.hist_random(r, c, ("read",), True), 120, 3000))(r, tier) + \
           [Job(recorded(r, n(tier, 60, 800)), aspects=("rows", "err"), label="in simulations")]
PROPS["C17"] = P(c17, MC([("MCHist", "MCHist")]))
PROPS["C18"] = P(facet(("csv",), ("generated", lambda r, c: api.hist_gen(r, c, ("csv",)), 3000, 0), ("random", lambda r, c: api.hist_random(r, c, ("csv",), True), 120, 3000)), MC([("MCHist", "MCHist")]))
PROPS["C19"] = P(facet(("value",), ("generated", api.sig_gen, 4000, 60000), ("random", api.sig_random, 150, 3000)), MC([("MCSig", "MCSig")]))
PROPS["C20"] = P(facet(("handle",), ("generated", api.sig_gen, 4000, 60000), ("random", api.sig_random, 150, 3000)), MC([("MCSig", "MCSig")]))
PROPS["C21"] = P(facet(("bus",), ("generated", api.bus_gen, 350, 4000), ("random", api.bus_random, 120, 2500)), MC([("MCBus", "MCBus")]))
PROPS["C22"] = P(facet(("name",), ("generated", api.name_gen, 4000, 61000), ("random", api.name_random, 150, 3000)), MC([("MCName", "MCName")]))
PROPS["C23"] = P(facet(("tree",), ("generated", api.tree_gen, 1500, 20000), ("random", api.tree_random, 120, 2500)), MC([("MCTree", "MCTree")]))
PROPS["C24"] = P(facet(("conn",), ("generated", api.conn_gen, 5000, 60000), ("random", api.conn_random, 250, 5000)), MC([("MCConn", "MCConn")]))
def c25(r, tier):
    k = n(tier, 1, 10)
    return facet(("diag",), ("faults", api.diag_random, 700, 9000), ("connections", api.conn_random, 60, 1000), ("signals", api.sig_random, 40, 800), ("hierarchy", api.tree_random, 40, 500),
                 ("histories", lambda r, c: api.hist_random(r, c), 30, 600), ("buses", api.bus_random, 30, 500), ("steppers", lambda r, c: api.step_random(r, c, ["euler", "rk4", "rkf45"]), 60, 800))(r, tier) + \
           [Job(simple(r, 12 * k, "dg", n=14, types="siba", nest=2, T=1.0), aspects=("diag",), label="simulations")]
PROPS["C25"] = P(c25, MC([("MCDiag", "MCDiag")]))

# --- buses in simulations ------------------------------------------------------------------------------------------------
def bus_from_spec(r, count):
    import tlc
    gs, _, _ = tlc.generate("MCBusBlk", "MCBusBlkGen")
    if count and count < len(gs): gs = r.sample(gs, count)
    out = []
    for q, g in enumerate(gs):
        m = Model("busgen-%d" % q)
        tys = [r.choice("ssiba") for _ in range(6)]
        ins = [m.sig(t, 2 if t == "a" else 1) for t in tys]; outs = [m.sig(t, 2 if t == "a" else 1) for t in tys]
        used = set()
        def fix(b): return [(e["l"], e["t"], e["id"]) for e in b["els"]]
        for b in g["buses"]:
            m.bus(fix(b)); used |= {e["id"] for e in b["els"] if e["t"] == "s"}
        for k, s in enumerate(ins):
            if s in used:
                t = tys[k]; m.ext(s, ["lin", r.randint(-3, 3), r.randint(1, 3)] if t != "b" else ["pul", dy(r, 0, 1), dy(r, 1, 2)])
                o = m.sig(t, 2 if t == "a" else 1); m.blk("pipe", [s], [o])
        iv = []
        for e in g["iv"]:
            k = {"a": 0, "b": 1, "aa": 2, "ab": 3, "ba": 4, "bb": 5}["".join(e["p"])]; t = tys[k]
            v = [str(r.randint(-9, 9))] if t == "i" else [str(r.randint(0, 1))] if t == "b" else [S(dy(r, -5, 5)) for _ in range(2 if t == "a" else 1)]
            iv.append(dict(p=e["p"], ty=t, v=v))
        m.blk(g["k"], [], [], bi=5, bo=6, ex=g["ex"], iv=iv)
        # something reads the output bus
        for k, s in enumerate(outs):
            if s in used:
                o = m.sig(tys[k], 2 if tys[k] == "a" else 1); m.blk("pipe", [s], [o])
        r.shuffle(m.d["decl"])
        m.sim(("sim", "reuse")[q % 2] if g["ex"] else ENG[q % 3], stp="none"); m.init(0)
        for t in (.5, 1, 1.5, 2.25): m.run(t)
        out.append(m.out())
    return out

def bus_tree(r, m, depth, leaf, types, path=(), empty=.1):
    """a random bus; leaf(path, ty) gives the signal of a leaf.  Returns (elements as nested lists)"""
    n = 0 if r.random() < empty and path else r.randint(1, 4)
    labs = r.sample(["a", "b", "c", "d", "x1", "y_2", "sig0", "sig1", "Q"], n)
    out = []
    for l in labs:
        if depth > 1 and r.random() < .4: out.append((l, bus_tree(r, m, depth - 1, leaf, types, path + (l,), empty)))
        else: out.append((l, leaf(path + (l,), r.choice(types))))
    return out
def bus_leaves(t, path=()):
    for l, x in t:
        if isinstance(x, list): yield from bus_leaves(x, path + (l,))
        else: yield path + (l,), x
def bus_subs(t, path=()):
    for l, x in t:
        if isinstance(x, list):
            yield path + (l,); yield from bus_subs(x, path + (l,))
def bus_make(m, t):
    els = []
    for l, x in t:
        if isinstance(x, list): els.append((l, "b", bus_make(m, x)))
        else: els.append((l, "s", x))
    return m.bus(els)
def bus_shuffle(r, t, f):
    t = [(l, bus_shuffle(r, x, f) if isinstance(x, list) else f(x)) for l, x in t]
    r.shuffle(t); return t

def bus_random(r, count, engines=ENG, steppers=True, faulty=.12):
    """trees of up to four levels; chains and rings of bus memories and pipes; exclusions; missing labels"""
    out = []
    for q in range(count):
        m = Model("bus-%d" % q); types = r.choice(["s", "siba", "siba", "sa"]); asz = r.randint(1, 3)
        sub = [0] + [m.sub(nm="sm") for _ in range(r.randint(0, 2))]
        new = lambda t: m.sig(t, asz if t == "a" else 1)
        T = {}
        def leaf(p, t): s = new(t); T[s] = t; return s
        tree = bus_tree(r, m, r.randint(1, 4), leaf, types)
        if not list(bus_leaves(tree)): tree = [("a", leaf(("a",), "s"))]
        src = tree; bid = bus_make(m, src); bad = r.random() < faulty
        prov = []   # leaves that still need a source
        ring = r.random() < .4
        stages = []
        chain = r.randint(1, 3); first = src
        full = True
        for st in range(chain):
            def twin(x): s = new(T[x]); T[s] = T[x]; twins[x] = s; return s
            twins = {}
            dst = bus_shuffle(r, src, twin)
            lv = [p for p, _ in bus_leaves(src)]; subs = list(bus_subs(src))
            k = r.choice(["busmem", "buspipe"]) if not (ring and st == 0) else "busmem"
            ex = []
            if r.random() < .4:
                for p in r.sample(lv, min(len(lv), r.randint(0, 2))): ex.append(dict(t="s", p=list(p)))
                if subs and r.random() < .5: ex.append(dict(t="b", p=list(r.choice(subs))))
                if r.random() < .2: ex.append(dict(t="s", p=["nothing", "here"]))
            isx = lambda p: any((e["t"] == "s" and tuple(e["p"]) == p) or (e["t"] == "b" and p[:len(e["p"])] == tuple(e["p"])) for e in ex)
            iv = []
            if k == "busmem":
                for p, x in bus_leaves(src):
                    if not isx(p) and r.random() < .5:
                        t = T[x]; v = [str(r.randint(-9, 9))] if t == "i" else [str(r.randint(0, 1))] if t == "b" else [S(dy(r, -5, 5)) for _ in range(asz if t == "a" else 1)]
                        iv.append(dict(p=list(p), ty=t, v=v))
                r.shuffle(iv); iv = iv[:5]
            if bad and st == chain - 1:
                w = r.random()
                if k == "busmem" and w < .5:
                    x = [p for p in lv if isx(p)]
                    iv.append(dict(p=r.choice([["zz"], list(lv[0]) + ["zz"], list(x[0]) if x else ["zz"]]), ty="s", v=["1"]))
                elif k == "busmem" and w < .7 and subs: iv.append(dict(p=list(r.choice(subs)), ty="s", v=["1"]))
                else:
                    # the output bus lacks something
                    def strip(t, p):
                        return [(l, strip(x, p[1:]) if len(p) > 1 and l == p[0] else x) for l, x in t if not (l == p[0] and len(p) == 1)]
                    w = [p for p in lv if not isx(p)]
                    if w: dst = strip(dst, r.choice(w))
            extra = None
            if r.random() < .3:
                s = new("s"); T[s] = "s"; dst.insert(r.randint(0, len(dst)), ("more%d" % st, s)); extra = s
            bo = bus_make(m, dst)
            m.blk(k, [], [], bi=bid, bo=bo, ex=ex, iv=iv, par=r.choice(sub))
            # excluded leaves get another source
            for p, x in bus_leaves(src):
                if isx(p): prov.append(twins[x])
            if extra: prov.append(extra)
            stages.append((k, dst, twins)); src = dst; bid = bo
        # the leaves of the first bus: external, sources, or fed back
        names = dict(bus_leaves(first))
        last = dict(bus_leaves(src))
        for p, x in bus_leaves(first):
            t = T[x]
            if ring and p in last and t in "sa" and r.random() < .6:
                e = new(t); T[e] = t; m.ext(e, ["lin", dy(r, -1, 1), 1])
                h = new(t); m.blk("gain", [last[p]], [h], [.5], par=r.choice(sub)); m.blk("add", [h, e], [x], [0] * (asz if t == "a" else 1), par=r.choice(sub))
            else: prov.append(x)
        for x in prov:
            t = T[x]
            fn = ["pul", dy(r, 0, 1), dy(r, 1, 2)] if t == "b" else ["lin", r.randint(-4, 4), r.randint(-3, 3)] if t == "i" else ["lin", dy(r, -2, 2), dy(r, -1, 1)]
            if r.random() < .5: m.blk("source", [], [x], fn=fn, par=r.choice(sub))
            else:
                m.ext(x, fn, r.choice(["cb", "root"])); o = new(t); m.blk("pipe", [x], [o])
        # readers, and a state
        for _, dst, _ in stages:
            for p, x in bus_leaves(dst):
                if r.random() < .7: o = new(T[x]); m.blk(r.choice(["pipe", "mem"]), [x], [o], [0] * (asz if T[x] == "a" else 1), par=r.choice(sub))
        sc = [x for _, dst, _ in stages for p, x in bus_leaves(dst) if T[x] == "s"]
        state = steppers and sc and r.random() < .5
        if state: o = new("s"); m.blk("integ", [r.choice(sc)], [o], [1])
        blks = [x for x in m.d["decl"] if x[0] == "b"]; r.shuffle(blks); m.d["decl"] = [x for x in m.d["decl"] if x[0] == "s"] + blks
        m.sim(engines[q % len(engines)], **(stepper(r) if state else dict(stp="none"))); runs(r, m, n=5, T=2)
        out.append(m.out())
    return out
def c11(r, tier):
    k = n(tier, 1, 10)
    return [Job(bus_random(r, 60 * k), aspects=("bus", "err"), label="random"),
            Job(bus_from_spec(r, 200 * k), aspects=("bus", "err"), label="generated")]
PROPS["C11"] = P(c11, MC([("MCBusBlk", "MCBusBlk")]))

# --- another initialization ------------------------------------------------------------------------------------------------
def again(r, m, cuts=(), nops=9, delay=False, stateful=True):
    """initializations again and again: at the same, an earlier or a later time, by the same or by another simulator"""
    sims = []; cuts = sorted(r.sample(list(cuts), min(len(cuts), 2))); total = len(m.d["blks"])
    todo = cuts[1:] + [total] if cuts else []
    if cuts: m.d["n0"] = cuts[0]
    t = 0; fresh = True
    def new():
        kw = stepper(r) if stateful else dict(stp="none")
        m.sim(r.choice(ENG), **kw); sims.append(len(sims) + 1)
    new()
    for q in range(nops):
        w = r.random()
        if fresh or w < .35:
            if not fresh and r.random() < .5:
                if todo and r.random() < .7: m.grow(todo.pop(0))
                if len(sims) > 1 and r.random() < .4: m.use(r.choice(sims))
                elif r.random() < .8: new()
            elif not fresh and todo and r.random() < .4: m.grow(todo.pop(0))
            if q: t = t + dy(r, .125, 1) if delay or r.random() < .4 else t if r.random() < .4 else t - dy(r, .125, 2)
            m.init(t); fresh = False
        else:
            t += dy(r, .125, .75, 16)
            m.run(t, *r.choice([(.03125, .25), (.0625, .5), (.05, .2), (.125, .375)]))
    if todo:
        m.grow(todo[-1])
        if r.random() < .5: new()
        t += .25; m.init(t)
    t += .5; m.run(t, .0625, .25)

def c27(r, tier):
    k = n(tier, 1, 12); sc = []
    for kk, seed, mk in models(r, 36 * k, "again", n=10, kinds=["mem", "integ", "trig", "so2", "deriv", "inival", "add", "gain", "source", "pipe"], types="sa", nest=1, must=["integ"]):
        m = mk().finish(); again(r, m); sc.append(m.out())
    for kk, seed, mk in models(r, 14 * k, "againd", n=10, kinds=["mem", "integ", "delay", "deriv", "add", "gain", "source", "pipe"], types="sa", nest=1, must=["integ", "delay"]):
        m = mk().finish(); again(r, m, delay=True); sc.append(m.out())
    for kk, seed, mk in models(r, 12 * k, "againn", n=10, kinds=["mem", "deriv", "inival", "add", "gain", "source", "pipe", "func"], types="siba", nest=1):
        m = mk().finish(); again(r, m, stateful=False); sc.append(m.out())
    for kk, seed, mk in models(r, 30 * k, "grow", n=12, kinds=["mem", "integ", "trig", "so2", "deriv", "inival", "add", "gain", "source", "pipe"], types="sa", nest=2):
        g = grown(r, mk().finish().out())
        if not g: continue
        m = Model("x"); m.d, cuts = g; ks = [b["k"] for b in m.d["blks"]]
        again(r, m, cuts=cuts, nops=12, stateful=any(x in ("integ", "trig", "so2") for x in ks)); sc.append(m.out())
    return [Job(sc, aspects=("again", "err"))]
PROPS["C27"] = P(c27, MC_SYS)

# --- independent simulations -------------------------------------------------------------------------------------------------
EVERY = ("order", "fresh", "alg", "mem", "dly", "der", "int", "trg", "ini", "bus", "step", "ctl", "commit", "hook", "retry", "time", "stepper", "diag", "rows", "again", "err")
API = ("fixed", "rkf45", "rows", "track", "csv", "value", "handle", "bus", "name", "tree", "conn", "diag")
def side(r, flavours, count, tag, scheds, free=False, most=3):
    """scenarios side by side, of one flavour or of several"""
    out = []; names = sorted(flavours)
    for q in range(count):
        z = r.randint(2, most); f = names[q % len(names)]
        ds = [copy.deepcopy(r.choice(flavours[f] if r.random() < .7 else flavours[r.choice(names)])) for _ in range(z)]
        if r.random() < .15: ds[1] = copy.deepcopy(ds[0])
        for k, d in enumerate(ds):
            d["n"] = "%s-%d.%d/%s" % (tag, q, k, d["n"]); d.update(g="", lean=0)
        w = r.random()
        if free: sched = []
        elif w < .5: sched = r.choice(scheds[z])
        elif w < .6: sched = [k for k in range(z) for _ in range(r.randint(1, 60))]
        else: sched = [k for _ in range(r.randint(3, 40)) for k in [r.randrange(z)] for _ in range(r.choice([1, 1, 2, 3, 10]))]
        out.append(dict(f="multi", n="%s-%d" % (tag, q), g="", parts=ds, sched=sched))
    return out
def c28(r, tier):
    import tlc
    k = n(tier, 1, 10)
    scheds = {2: tlc.generate("MCPar", "MCParGen")[0], 3: tlc.generate("MCPar", "MCPar3Gen")[0]}
    F = {}
    for stp in ("euler", "rk4", "rkf45", "script"):
        F[stp] = simple(r, 5 * k, stp, n=8, must=["integ"] * 2 + ["trig"], types="sa", nest=1, T=1.0, n_runs=2, stp=stp)
    for kind in ("mem", "delay", "deriv", "inival", "so2"):
        F[kind] = simple(r, 4 * k, kind, n=8, must=[kind] * 2, kinds=["add", "gain", "pipe", "source", kind], types="sa", nest=1, T=1.0)
    F["alg"] = simple(r, 8 * k, "alg", n=14, kinds=ALG, types="siba", feedback=False, nest=1, stp="none", n_runs=3, T=2)
    F["mix"] = simple(r, 8 * k, "mix", n=12, types="siba", nest=2, T=1.0)
    F["bus"] = bus_random(r, 8 * k)
    F["wander"] = wandering(r, 4 * k, "wander", n=8, nin=2, via="mix", types="siba", nest=1)
    # the same times, reached by all and repeated
    F["repeat"] = []
    for kk, seed, mk in models(r, 5 * k, "repeat", n=7, kinds=["mem", "integ", "so2", "deriv", "inival", "add", "gain", "source"], types="sa", nest=1, must=["integ"]):
        m = mk().finish(); m.sim(ENG[kk % 3], **stepper(r, r.choice(["euler", "rk4"]))); m.init(0)
        for t in (1, 1, 1.5, 1.5, 1.5, 2, 2): m.run(t, .25, .5)
        F["repeat"].append(m.out())
    F["again"] = []
    for kk, seed, mk in models(r, 6 * k, "again", n=8, kinds=["mem", "integ", "so2", "deriv", "inival", "add", "gain", "source"], types="sa", nest=1, must=["integ"]):
        m = mk().finish(); again(r, m); F["again"].append(m.out())
    for kk, seed, mk in models(r, 5 * k, "loop", n=8, loop=2, kinds=ALG + ["mem"], nest=1):
        m = mk().finish(); m.sim(ENG[kk % 2], stp="none"); m.init(0); m.run(.5); m.run(1); F.setdefault("loop", []).append(m.out())
    A = dict(step=api.step_random(r, 12 * k, ["euler", "rk4", "rkf45"]), hist=api.hist_random(r, 8 * k), csv=api.hist_random(r, 6 * k, ("csv",), True), sig=api.sig_random(r, 8 * k),
             bus=api.bus_random(r, 8 * k), name=api.name_random(r, 8 * k), tree=api.tree_random(r, 8 * k), conn=api.conn_random(r, 8 * k), diag=api.diag_random(r, 25 * k))
    return [Job(side(r, F, 60 * k, "turns", scheds), aspects=EVERY, label="taking turns"),
            Job(side(r, A, 60 * k, "ops", scheds), spec="TraceApi", aspects=API, label="operations taking turns"),
            Job(side(r, F, 25 * k, "free", scheds, True, 4), aspects=EVERY, variants=("tsan", "rel"), label="free threads"),
            Job(side(r, A, 30 * k, "freeops", scheds, True, 4), spec="TraceApi", aspects=API, variants=("tsan",), label="operations in free threads")]
PROPS["C28"] = P(c28, MC([("MCPar", "MCPar")]))
