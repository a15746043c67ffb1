"""Building blocks of scenarios for simulations."""
import copy, random

def S(x):
    """number -> string the driver and the specification read as the same binary64 number"""
    if isinstance(x, str): return x
    if isinstance(x, bool): return "1" if x else "0"
    return repr(float(x)) if isinstance(x, float) else str(x)

class Model:
    def __init__(self, name, grp=""):
        self.d = dict(f="sim", n=name, g=grp, sigs=[], buses=[], subs=[], blks=[], decl=[], ext=[], ops=[], rootleaf=0, late=0)
    def sig(self, ty="s", sz=1, nm=None):
        self.d["sigs"].append(dict(ty=ty, sz=sz, nm=nm if nm is not None else "x%d" % (len(self.d["sigs"]) + 1)))
        return len(self.d["sigs"])
    def bus(self, els):
        """els: (label, 's'|'b', id)"""
        self.d["buses"].append(dict(els=[dict(l=l, t=t, id=i) for l, t, i in els]))
        return len(self.d["buses"])
    def sub(self, par=0, nm="sub"):
        self.d["subs"].append(dict(par=par, nm=nm + str(len(self.d["subs"]) + 1)))
        self.d["decl"].append(["s", len(self.d["subs"])])
        return len(self.d["subs"])
    def blk(self, k, i=(), o=(), p=(), ty=None, par=0, il=(), fn=(), fns=(), bi=0, bo=0, ex=(), iv=(), add=0, nm=None):
        if ty is None:
            ty = self.d["sigs"][o[0] - 1]["ty"] if o else "s"
        if k == "delay" and not il: il = ("in", "delay", "initial")
        if k == "trig" and not il: il = ("in", "trigger")
        self.d["blks"].append(dict(k=k, ty=ty, par=par, nm=nm or "%s%d" % (k, len(self.d["blks"]) + 1), p=[S(x) for x in p],
            i=list(i), il=list(il), o=list(o), fn=[S(x) for x in fn], fns=[[S(x) for x in f] for f in fns], bi=bi, bo=bo,
            ex=list(ex), iv=list(iv), add=add))
        self.d["decl"].append(["b", len(self.d["blks"])])
        return len(self.d["blks"])
    def ext(self, s, fn, via="cb", off=None, on=None, jit=None):
        e = dict(s=s, fn=[S(x) for x in fn], via=via)
        if off is not None: e["off"] = S(off)
        if on is not None: e["on"] = S(on)
        if jit is not None: e["jit"] = S(jit)
        self.d["ext"].append(e)
    def sim(self, eng="sim", stp="euler", cb=1, **kw):
        st = dict(k=stp, mark=1 if stp != "none" else 0)
        if "sug" in kw: st["sug"] = [S(x) for x in kw.pop("sug")]
        st.update(kw)
        self.d["ops"].append(dict(op="sim", eng=eng, stp=st, cb=cb))
    def use(self, k): self.d["ops"].append(dict(op="use", id=k))
    def hist(self, ids, grow=3): self.d["ops"].append(dict(op="hist", ids=list(ids), grow=grow))
    def rows(self, ids, shrink=0): self.d["ops"].append(dict(op="rows", ids=list(ids), shrink=shrink))
    def grow(self, n): self.d["ops"].append(dict(op="grow", n=n))
    def init(self, t=0): self.d["ops"].append(dict(op="init", t=S(t)))
    def run(self, t, mn=None, mx=None, xerr=0):
        o = dict(op="run", t=S(t))
        if mn is not None: o.update(mn=S(mn), mx=S(mx))
        if xerr: o["xerr"] = 1
        self.d["ops"].append(o)
    def out(self): return copy.deepcopy(self.d)
