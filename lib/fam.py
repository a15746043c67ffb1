"""Scenario families for simulations, one per property."""
import random, copy
from gen import Gen, dy
from scen import Model, S

ENG = ("sim", "reuse", "fast")
DYN = ("mem", "delay", "deriv", "integ", "trig", "inival", "so2")
ALG = ["add", "mul", "sub", "div", "gain", "pipe", "siso", "sofn", "func", "cmp", "source", "sources", "const", "sat"]

def sugs(r, n):
    """step-size suggestions: growing, shrinking, repeated rejection, beyond the limits"""
    return [r.choice(["r1", "r1", "r2", "r0.5", "r0.25", "r0.9", "r4", "0.001", "5", "0.0625", "r0.5", "r1.5", "r0.99"]) for _ in range(n)]

def stepper(r, mode=None):
    k = mode or r.choice(["euler", "rk4", "rkf45", "script", "script", "script"])
    kw = dict(stp=k)
    if k == "script": kw.update(sug=sugs(r, r.randint(3, 30)), extra=r.choice([0, 0, 1, 2]))
    return kw

LIMITS = [(.03125, .25), (.0625, .5), (.05, .2), (.001, 1), (.125, .375), (.01, .1)]
def start(r, m):
    """mostly zero, else before zero, or late (unless integers might overflow)"""
    if r.random() < .65: return 0
    ints = any(x["ty"] == "i" for x in m.d["sigs"])
    return r.choice([-.5, -1.25, -2.5, .375, 2] + ([] if ints else [100.125, -250.5, 1024.75]))
def runs(r, m, n=3, T=2.5, t0=None, lim=None, repeat=False, tiny=False):
    """an initialization (mostly) and runs to later and later times; `repeat`: also to the time already reached"""
    t = start(r, m) if t0 is None else t0
    if t or r.random() < .75: m.init(t)
    for k in range(n):
        t += dy(r, T / n / 2, T / n * 1.5, 16) or .125
        if tiny and r.random() < .3: t += r.choice([2 ** -10, 2 ** -14, 2 ** -18])
        if lim or r.random() < .8:
            mn, mx = lim or r.choice(LIMITS)
            m.run(t, mn, mx)
        else: m.run(t)
        if repeat:
            while r.random() < .4: m.run(t)
        if tiny and r.random() < .3:
            t += r.choice([2 ** -10, 2 ** -14, 2 ** -18]); m.run(t, *r.choice(LIMITS))

def wander(r, m, n=9, T=3):
    """runs of a model without states: to later, earlier and the same times, and initializations in between"""
    t = start(r, m)
    if t or r.random() < .7: m.init(t)
    for _ in range(n):
        w = r.random()
        if w < .45: t += dy(r, .0625, 2 * T / n, 16)
        elif w < .7: t -= dy(r, .0625, T / 2, 16)
        elif w < .75: t += r.choice([-1, 1]) * 2 ** -r.randint(8, 16)
        elif w < .8: m.init(t - dy(r, 0, 1)); t = float(m.d["ops"][-1]["t"])
        m.run(t, *r.choice([(), (), (.0625, .25)]))

def wandering(r, count, name, eng=ENG, **kw):
    out = []
    kw.setdefault("kinds", ALG + ["mem", "deriv", "inival"]); kw.setdefault("jit", .4)
    for k, seed, mk in models(r, count, name, **kw):
        m = mk().finish(); m.sim(eng[k % len(eng)], stp="none"); wander(r, m); out.append(m.out())
    return out

def merge(r, name, ds, shuffle=True):
    """independent models side by side in one"""
    m = Model(name); d = m.d
    for x in ds:
        a, s0, b0 = len(d["sigs"]), len(d["subs"]), len(d["blks"])
        d["sigs"] += [dict(y, nm="%s_%d" % (y["nm"], a)) for y in x["sigs"]]
        d["subs"] += [dict(y, par=y["par"] + s0 if y["par"] else 0, nm="%s_%d" % (y["nm"], s0)) for y in x["subs"]]
        for y in x["blks"]:
            d["blks"].append(dict(y, i=[k + a for k in y["i"]], o=[k + a for k in y["o"]], par=y["par"] + s0 if y["par"] else 0,
                                  nm="%s_%d" % (y["nm"], b0)))
        d["ext"] += [dict(y, s=y["s"] + a) for y in x["ext"]]
        d["decl"] += [[t, k + (s0 if t == "s" else b0)] for t, k in x["decl"]]
    if shuffle:
        blks = [y for y in d["decl"] if y[0] == "b"]; r.shuffle(blks)
        d["decl"] = [y for y in d["decl"] if y[0] == "s"] + blks
    return m

def mixed(r, count, name, sizes=(1, 2, 3, 5), parts=3, **kw):
    """models with arrays of several sizes (and scalars) side by side"""
    for k in range(count):
        ds = []
        for j in range(parts):
            z = r.choice(sizes)
            ds.append(Gen(random.Random(r.getrandbits(32)), "%s-%d-%d" % (name, k, j), arr=(z, z), types=r.choice(["a", "sa", "a", "s"]), **kw).finish().out())
        yield k, merge(r, "%s-%d" % (name, k), ds)

def chain(r, name, n, width=1, order="reverse", nest=0, state=False):
    """a long dependency chain (or several), in the worst order of declaration"""
    m = Model(name); subs = [0]
    for k in range(nest): subs.append(m.sub(par=subs[-1] if r.random() < .5 else r.choice(subs)))
    u = m.sig(); m.ext(u, ["lin", 1, .5])
    ends = []
    for w in range(width):
        x = u
        for k in range(n):
            o = m.sig(); q = r.random()
            if k % 20 == 19: m.blk("sat", [x], [o], par=r.choice(subs))
            elif q < .4: m.blk("gain", [x], [o], [r.choice([-1, .5, 1, -.5])], par=r.choice(subs))
            elif q < .6: m.blk("pipe", [x], [o], par=r.choice(subs))
            elif q < .8 and k > 3: m.blk("add", [x, x - r.randint(1, 3)] if w == 0 or k > 4 else [x, u], [o], [.25], par=r.choice(subs))
            else: m.blk("sub", [x, u], [o], par=r.choice(subs))
            x = o
        ends.append(x)
    o = m.sig(); m.blk("mem", [ends[-1]], [o], [3], par=r.choice(subs))
    if state: o = m.sig(); m.blk("integ", [ends[0]], [o], [1], par=r.choice(subs))
    blks = [y for y in m.d["decl"] if y[0] == "b"]
    if order == "reverse": blks.reverse()
    elif order == "random": r.shuffle(blks)
    m.d["decl"] = [y for y in m.d["decl"] if y[0] == "s"] + blks
    return m

def wired_subs(r, d):
    """the same model, its submodels connected to signals of their own (which only tells what they are about)"""
    d = copy.deepcopy(d)
    for s in d["subs"]:
        if r.random() < .7:
            n = len(d["sigs"])
            s.update(i=r.sample(range(1, n + 1), min(n, r.randint(0, 3))), o=r.sample(range(1, n + 1), min(n, r.randint(0, 2))))
    return d

def single(r, count, name, eng=ENG):
    """a model that is one block"""
    out = []
    for kk in range(count):
        k = r.choice(["gain", "add", "mem", "deriv", "integ", "inival", "so2", "trig", "delay", "func", "source", "sofn"]); via = r.choice(["cb", "root"])
        m = Model("%s-%d" % (name, kk)); ty = r.choice("sa") if k not in ("so2", "func") else "s"; z = 1 if ty == "s" else r.randint(1, 4)
        x = lambda t=None: (lambda s: (m.ext(s, ["lin", dy(r, -2, 2), 1] if t != "b" else ["pul", .25, 1], via, jit=r.choice([None, .25])), s)[1])(m.sig(t or ty, 1 if t else z))
        o = m.sig(ty, z); v = [dy(r, -3, 3) for _ in range(z)]
        if k in ("gain", "deriv", "inival", "mem", "integ"): m.blk(k, [x()], [o], [2] if k == "gain" else v)
        elif k in ("add", "sofn"): m.blk(k, [x(), x(), x()], [o], v if k == "add" else [2])
        elif k == "func": m.blk(k, [x(), x()], [o, m.sig()])
        elif k == "so2": m.blk(k, [x()], [o, m.sig(), m.sig()], [1, -1])
        elif k == "trig": m.blk(k, [x(), x("b")], [o], v)
        elif k == "delay": m.blk(k, [x(), x("s"), x()], [o], [1000])
        elif k == "source": m.blk(k, [], [o], fn=["sq", 1, .5])
        m.d["rootleaf"] = 1
        m.sim(eng[kk % len(eng)], **(stepper(r) if k in ("integ", "so2", "trig") else dict(stp="none"))); runs(r, m, n=4); out.append(m.out())
    return out

def namesakes(r, ds):
    """the same scenarios, their signals named alike (where no bus needs the names)"""
    for d in ds:
        if not d["buses"]:
            for x in d["sigs"]: x["nm"] = r.choice(["x", "x", "x", "y"])
    return ds

def unsteady(r, ds, p=.6, by=(.0625, .25, -.125, 1)):
    """the same scenarios, with inputs that are different ones in each evaluation, even for the same time"""
    for d in ds:
        for e in d["ext"]:
            if r.random() < p: e["jev"] = S(r.choice(by))
    return ds

def plateau(r, count, name, stp=None, eng=ENG):
    """integrators whose rates are held constant over each step, in binary fractions: the states a step asks for last are
    often those the next one starts with, or do not move at all"""
    out = []
    for kk in range(count):
        m = Model("%s-%d" % (name, kk)); ty = r.choice("sa"); z = 1 if ty == "s" else r.randint(1, 3)
        for _ in range(r.randint(1, 2)):
            u = m.sig(ty, z); m.ext(u, r.choice([["lin", dy(r, -2, 2, 8), 1], ["stp", dy(r, .25, 2, 4), dy(r, -2, 2, 8), dy(r, -2, 2, 8)], ["pul", .25, 1]]), r.choice(["cb", "root"]))
            held = m.sig(ty, z); w = r.random()
            if w < .6: m.blk("mem", [u], [held], [r.choice([0, 0, 1, -.5])] * z)
            else: m.blk("inival", [u], [held])
            x = m.sig(ty, z); m.blk("integ", [held], [x], [dy(r, -2, 2, 8)] * z)
            y = m.sig(ty, z); m.blk("gain", [x], [y], [2])
            if r.random() < .5: o = m.sig(ty, z); m.blk("mem", [x], [o], [9] * z)
            if r.random() < .4: o = m.sig(ty, z); m.blk("deriv", [x], [o], [7] * z)
        r.shuffle(m.d["decl"])
        m.sim(eng[kk % len(eng)], **(stepper(r, stp or r.choice(["rk4", "rk4", "euler", "rkf45", "script"]))))
        if r.random() < .7: m.init(0)
        t = 0
        for _ in range(r.randint(2, 5)):
            h = r.choice([.25, .5]); t += h * r.randint(1, 3); m.run(t, h / r.choice([2, 4]), h)
        out.append(m.out())
    return out

def slow(r, count, name, eng=ENG):
    """states that move by very little of their size per step"""
    out = []
    for kk in range(count):
        m = Model("%s-%d" % (name, kk)); ty = r.choice("ssa"); z = 1 if ty == "s" else r.randint(1, 3); u = m.sig(ty, z)
        m.ext(u, r.choice([["lin", dy(r, -1, 1, 8), 1], ["c", r.choice([1, -1, .5])]]), r.choice(["cb", "root"]))
        for _ in range(r.randint(1, 2)):
            x = m.sig(ty, z); big = r.choice([-1, 1]) * 2.0 ** r.randint(10, 36); v = [big * r.choice([1, 1, 1.25]) for _ in range(z)]
            if r.random() < .7: m.blk("integ", [u], [x], v)
            elif r.random() < .5 and ty == "s": a, b = m.sig(), m.sig(); m.blk("so2", [u], [x, a, b], [v[0], r.choice([.5, 1])])
            else: g = m.sig("b"); m.ext(g, ["pul", 5, 6]); m.blk("trig", [u, g], [x], v)
            for w in ("mem", "pipe", "deriv"):
                if r.random() < .4: o = m.sig(ty, z); m.blk(w, [x], [o], [0] * z if w != "pipe" else [])
        m.sim(eng[kk % len(eng)], **stepper(r)); m.init(0); t = 0
        for _ in range(r.randint(3, 8)):
            h = 2.0 ** -r.randint(3, 12); t += h * r.randint(1, 2); m.run(t, h / 2, h)
        out.append(m.out())
    return out

def deep(r, d, n):
    """the same model, its blocks spread over submodels nested n deep"""
    d = copy.deepcopy(d)
    blks = [x for x in d["decl"] if x[0] == "b"]; r.shuffle(blks)
    d["subs"] = [dict(par=k, nm="g%d" % k) for k in range(n)]
    for b in d["blks"]: b["par"] = r.choice([n, n, r.randint(0, n)])
    d["decl"] = [["s", k + 1] for k in range(n)] + blks
    return d

def models(r, count, name, **kw):
    for k in range(count):
        seed = r.getrandbits(32)
        yield k, seed, (lambda grp="", nm="", seed=seed, kw=kw, k=k, **more:
                        Gen(random.Random(seed), "%s-%d%s" % (name, k, nm), grp, **dict(kw, **more)))

def simple(r, count, name, eng=ENG, n_runs=3, T=2.5, stp=None, lim=None, repeat=False, tiny=False, **kw):
    out = []
    if repeat: kw.setdefault("jit", .4)
    for k, seed, mk in models(r, count, name, **kw):
        g = mk(); m = g.finish()
        m.sim(eng[k % len(eng)], **stepper(r, stp))
        runs(r, m, n=n_runs, T=T, lim=lim, repeat=repeat, tiny=tiny)
        out.append(m.out())
    return out

def redeclare(r, d):
    """the same model, its blocks declared in another order"""
    d = copy.deepcopy(d)
    subs = [x for x in d["decl"] if x[0] == "s"]; blks = [x for x in d["decl"] if x[0] == "b"]
    r.shuffle(blks); d["decl"] = subs + blks
    return d

def renest(r, d, n=3):
    """the same model, grouped differently into submodels"""
    d = copy.deepcopy(d)
    blks = [x for x in d["decl"] if x[0] == "b"]; r.shuffle(blks)
    d["subs"] = [dict(par=r.randint(0, k), nm="g%d" % k) for k in range(n)]
    for b in d["blks"]: b["par"] = r.randint(0, n)
    d["decl"] = [["s", k + 1] for k in range(n)] + blks
    return d

def with_engine(d, eng):
    d = copy.deepcopy(d)
    for o in d["ops"]:
        if o["op"] == "sim": o["eng"] = eng
    return d

def grown(r, d):
    """the same model, some of its last blocks joining it between two initializations: reorders the blocks so that the
    first ones form a model of their own, and sets n0; returns the sizes at which it is complete"""
    d = copy.deepcopy(d)
    n = len(d["blks"]); have = {e["s"] for e in d["ext"]}
    producer = {s: k for k, b in enumerate(d["blks"]) for s in b["o"]}
    # readers of the external inputs first, so that these are always part of the model
    first = []
    for e in d["ext"]:
        c = [k for k, b in enumerate(d["blks"]) if e["s"] in b["i"]]
        if not c: return None
        def need(k, seen):
            if k in seen: return
            seen.append(k)
            for s in d["blks"][k]["i"]:
                if s in producer: need(producer[s], seen)
        best = None
        for k in c:
            q = []; need(k, q)
            if best is None or len(q) < len(best): best = q
        for k in best:
            if k not in first: first.append(k)
    order = list(first); cuts = [len(order)] if order else []
    rest = [k for k in range(n) if k not in order]; r.shuffle(rest)
    while rest:
        q = []; 
        def close(k):
            if k in q or k in order: return
            q.append(k)
            for s in d["blks"][k]["i"]:
                if s in producer: close(producer[s])
        close(rest[0]); order += q; cuts.append(len(order)); rest = [k for k in rest if k not in q]
    new = {old: k for k, old in enumerate(order)}
    d["blks"] = [d["blks"][k] for k in order]
    d["decl"] = [[t, new[k - 1] + 1] if t == "b" else [t, k] for t, k in d["decl"]]
    cuts = [c for c in cuts if c < n]
    return (d, cuts) if cuts else None
