"""Random scenarios for simulations.  The generator only decides what to try; the specification decides what is right."""
import random
from scen import Model

def dy(r, lo, hi, q=8):
    """a number that binary64 represents exactly"""
    return r.randint(int(lo * q), int(hi * q)) / q

class Gen:
    """Builds one model.  Signals are made in dependency order, so that the model evaluates; the declaration order is
    shuffled afterwards.  Feedback goes through memories and integrators, and through a limiter, so that values stay
    bounded."""
    def __init__(self, r, name, grp="", n=12, kinds=None, types="s", nin=2, nest=0, order="random", via="mix", late=0.0, add=0.0,
                 arr=(1, 4), must=(), loop=0, feedback=True, small=False, jit=0.0, drift=0.0):
        self.r = r; self.m = Model(name, grp); self.types = types; self.arr = arr
        self.kinds = kinds; self.nest = nest; self.order = order; self.via = via
        self.jit = jit; self.drift = drift
        self.later = []; self.B = {}; self.sub = [0]; self.feedback = feedback
        m = self.m
        m.d["late"] = 1 if r.random() < late else 0
        self.addp = add
        self.asz = r.randint(*arr)
        for _ in range(nest): self.sub.append(m.sub(par=r.choice(self.sub), nm="sm"))
        for k in range(nin): self.ext()
        todo = list(must)
        while len(todo) < n: todo.append(self.pick())
        r.shuffle(todo)
        for k in todo: self.make(k)
        for _ in range(loop): self.loop()
        # feedback inputs
        for f in self.later: f()
        m.d["blks"] = m.d["blks"]
        decl = m.d["decl"]
        subs = [x for x in decl if x[0] == "s"]; blks = [x for x in decl if x[0] == "b"]
        if order == "random": r.shuffle(blks)
        elif order == "reverse": blks.reverse()
        # nested submodels need their parents first
        out = subs + blks
        if order == "random" and subs:
            out = []; si = 0; need = {k: m.d["blks"][k - 1]["par"] for _, k in blks}
            rest = list(blks)
            while rest or si < len(subs):
                if si < len(subs) and (not rest or r.random() < .5): out.append(subs[si]); si += 1
                else:
                    ok = [b for b in rest if need[b[1]] <= si]
                    if not ok: out.append(subs[si]); si += 1
                    else: out.append(ok[0]); rest.remove(ok[0])
        m.d["decl"] = out

    # signals ------------------------------------------------------------------------------------------------------
    def sigs(self, ty, bound=1e300):
        return [s for s in self.B if self.ty(s) == ty and self.B[s] <= bound]
    def ty(self, s): return self.m.d["sigs"][s - 1]["ty"]
    def sz(self, s): return self.m.d["sigs"][s - 1]["sz"]
    def new(self, ty, bound):
        s = self.m.sig(ty, self.asz if ty == "a" else 1); self.B[s] = bound; return s
    def fn(self, ty):
        r = self.r
        k = r.choice(["c", "lin", "sq", "stp", "pul"])
        if ty == "i": a = [k, r.randint(-5, 5), r.randint(-4, 4)]
        else: a = [k, dy(r, -3, 3), dy(r, -2, 2)]
        if k == "c": return a[:2]
        if k in ("lin", "sq"): return a
        if k == "stp": return ["stp", dy(r, 0, 4), a[1], a[2]]
        t = dy(r, 0, 3); return ["pul", t, t + dy(r, .125, 2)]
    def fnb(self): return 1e3
    def ext(self, ty=None):
        r = self.r
        ty = ty or r.choice(self.types)
        s = self.new(ty, self.fnb())
        via = self.via if self.via in ("cb", "root") else r.choice(["cb", "root"])
        if r.random() < self.drift and ty in "sa":
            self.B[s] = 1e9; self.m.ext(s, ["drf", r.choice([1e6, 1e9, -3e7]), r.choice([1, -.5, 1e-3, 1e-5]), r.choice([3, 5, 8])], via)
        else: self.m.ext(s, self.fn(ty), via, jit=r.choice([.03125, .25, -.125, 1e-3]) if r.random() < self.jit else None)
        self.used = getattr(self, "used", set())
        return s
    def get(self, ty, bound=1e300):
        """an existing signal, preferably a recent one"""
        c = self.sigs(ty, bound)
        if not c or self.r.random() < .08: return self.source(ty)
        return self.r.choice(c[-6:] if self.r.random() < .7 else c)
    def par(self): return self.r.choice(self.sub)
    def blk(self, k, i, o, p=(), **kw):
        kw.setdefault("par", self.par())
        if self.r.random() < self.addp: kw["add"] = 1
        return self.m.blk(k, i, o, p, **kw)
    def source(self, ty):
        r = self.r; s = self.new(ty, self.fnb())
        if r.random() < .5:
            p = [r.randint(-5, 5)] if ty == "i" else [r.randint(0, 1)] if ty == "b" else [dy(r, -3, 3) for _ in range(self.sz(s))]
            self.blk("const", [], [s], p)
        else: self.blk("source", [], [s], fn=self.fn(ty))
        return s
    def vec(self, ty, lo=-3, hi=3):
        r = self.r
        if ty == "i": return [r.randint(lo, hi)]
        if ty == "b": return [r.randint(0, 1)]
        return [dy(r, lo, hi) for _ in range(self.asz if ty == "a" else 1)]
    def back(self, ty, f, tame=True):
        """an input that is not required for an activation: any signal, chosen when all are known"""
        if not self.feedback:
            f(self.get(ty)); return
        def g():
            s = self.r.choice(self.sigs(ty) or [self.source(ty)])
            if tame and self.B[s] > 1e4 and ty in "sa":
                o = self.new(ty, 8.0); self.blk("sat", [s], [o]); s = o
            f(s)
        self.later.append(g)

    # blocks -------------------------------------------------------------------------------------------------------
    ALL = ["add", "mul", "sub", "div", "gain", "pipe", "siso", "sofn", "func", "cmp", "source", "sources", "const", "sat",
           "mem", "integ", "deriv", "delay", "inival", "trig", "so2"]
    def pick(self):
        return self.r.choice(self.kinds or self.ALL)
    def numty(self):
        t = [x for x in self.types if x in "sa"] or ["s"]
        return self.r.choice(t)
    def make(self, k):
        r = self.r; m = self.m
        ty = self.numty()
        if k in ("gain", "pipe", "mem", "const", "source"):
            ty = r.choice([x for x in self.types if not (k == "gain" and x == "b")] or ["s"])
        big = 1e300
        if k in ("const", "source"): self.source(ty); return
        if k == "sources":
            tys = [r.choice(self.types) for _ in range(r.randint(1, 4))]
            o = [self.new(t, self.fnb()) for t in tys]
            self.blk("sources", [], o, fns=[self.fn(t) for t in tys], ty="m"); return
        if k == "add":
            i = [self.get(ty) for _ in range(r.randint(1, 5))]
            o = self.new(ty, sum(self.B[x] for x in i) + 3)
            self.blk("add", i, [o], self.vec(ty) if r.random() < .7 else [0] * self.sz(o)); return
        if k == "mul":
            i = [self.get(ty, 1e4) for _ in range(r.randint(1, 3))]
            b = 3.0
            for x in i: b *= max(1, self.B[x])
            o = self.new(ty, b); self.blk("mul", i, [o], self.vec(ty)); return
        if k in ("sub", "div"):
            i = [self.get(ty, 1e8), self.get(ty, 1e8)]
            if k == "div":
                # something away from zero
                d = self.new(ty, 100); self.blk("const", [], [d], [r.choice([-2, -.5, .25, 3, 7]) for _ in range(self.sz(d))]); i[1] = d
            o = self.new(ty, 8e8); self.blk(k, i, [o]); return
        if k == "gain":
            x = self.get(ty, 1e6)
            g = r.randint(-4, 4) if ty == "i" else dy(r, -3, 3)
            o = self.new(ty, 4 * self.B[x]); self.blk("gain", [x], [o], [g]); return
        if k == "pipe":
            x = self.get(ty); o = self.new(ty, self.B[x]); self.blk("pipe", [x], [o]); return
        if k == "siso":
            x = self.get(ty, 1e4); o = self.new(ty, self.B[x] ** 2 + 100); self.blk("siso", [x], [o]); return
        if k == "sat":
            x = self.get(ty); o = self.new(ty, 8.0); self.blk("sat", [x], [o]); return
        if k == "sofn":
            i = [self.get(ty) for _ in range(r.randint(1, 4))]
            o = self.new(ty, sum(self.B[x] for x in i) + 100); self.blk("sofn", i, [o], [dy(r, -2, 2)]); return
        if k == "func":
            i = [self.get("s") for _ in range(r.randint(0, 3))]
            o = [self.new("s", 4 * sum(self.B[x] for x in i) + 100) for _ in range(r.randint(1, 3))]
            self.blk("func", i, o); return
        if k == "cmp":
            o = self.new("b", 1); self.blk("cmp", [self.get("s"), self.get("s")], [o]); return
        if k == "mem":
            o = self.new(ty, 1e5 if ty in "sa" else 1e7)
            b = self.blk("mem", [0], [o], self.vec(ty))
            def f(s, b=b): m.d["blks"][b - 1]["i"] = [s]
            self.back(ty, f, ty in "sa"); return
        if k == "integ":
            o = self.new(ty, 1e4); b = self.blk("integ", [0], [o], self.vec(ty))
            def f(s, b=b): m.d["blks"][b - 1]["i"] = [s]
            self.back(ty, f); return
        if k == "trig":
            t = self.trigger()
            o = self.new(ty, 1e4); b = self.blk("trig", [0, t], [o], self.vec(ty))
            def f(s, b=b): m.d["blks"][b - 1]["i"][0] = s
            self.back(ty, f); return
        if k == "deriv":
            x = self.get(ty, 1e8); o = self.new(ty, 1e12); self.blk("deriv", [x], [o], self.vec(ty)); return
        if k == "delay":
            x = self.get(ty, 1e8)
            d = self.new("s", 2); dl = [0, .125, .25, .3, .5, .7, 1.0]
            if r.random() < .7: self.blk("const", [], [d], [r.choice(dl)])
            else: self.blk("source", [], [d], fn=["stp", dy(r, 0, 3), r.choice(dl), r.choice(dl)])
            ini = self.get(ty, 1e8); o = self.new(ty, 1e8)
            self.blk("delay", [x, d, ini], [o], [r.choice([1.0, 1.5])]); return
        if k == "inival":
            x = self.get(ty); o = self.new(ty, self.B[x]); self.blk("inival", [x], [o]); return
        if k == "so2":
            u = self.get("s", 1e8); o = [self.new("s", 1e10) for _ in range(3)]
            self.blk("so2", [u], o, [dy(r, -2, 2), dy(r, -2, 2)]); return
        raise ValueError(k)
    def trigger(self):
        r = self.r
        c = self.sigs("b")
        if c and r.random() < .4: return r.choice(c)
        t = self.new("b", 1); a = dy(r, 0, 2)
        self.blk("source", [], [t], fn=["pul", a, a + dy(r, .25, 1)])
        return t
    def loop(self):
        """an algebraic loop with something hanging off it"""
        r = self.r; n = r.randint(1, 3)
        o = [self.new("s", 1e4) for _ in range(n)]
        for j in range(n):
            i = [o[j - 1]]
            if r.random() < .5: i.append(self.get("s"))
            self.blk("add", i, [o[j]], [0])
        for x in o: del self.B[x]
        if r.random() < .6:
            q = self.m.sig("s"); self.blk("gain", [o[-1]], [q], [2])
            if r.random() < .5:
                w = self.m.sig("s"); self.blk("add", [q, self.get("s")], [w], [0])

    def finish(self, only_used=True):
        """external inputs nobody uses are not part of the model; gives each a reader"""
        m = self.m
        used = set()
        for b in m.d["blks"]: used |= set(b["i"])
        for e in m.d["ext"]:
            if e["s"] not in used:
                s = m.sig(self.ty(e["s"]), self.sz(e["s"])); m.blk("pipe", [e["s"]], [s])
        return m
