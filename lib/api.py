"""Scenarios for the interfaces outside simulations: generated from the specifications (MC*Gen.cfg) and random ones."""
import random
from scen import S
from gen import dy

def scen(f, name, ops, **kw): return dict(dict(f=f, n=name, g="", ops=ops), **kw)
def numbers(r, k):
    return [S(r.choice([dy(r, -9, 9), r.choice([.1, -1 / 3, 1e300, -2.5e-300, 12345.678901, 7, -1e17, 0, 1.0000000001, 5e-324, "NaN", "Infinity", "-Infinity"])])) for _ in range(k)]
def generated(r, module, cfg, count):
    import tlc
    b, _, _ = tlc.generate(module, cfg)
    return r.sample(b, count) if count and count < len(b) else b

# --- signals and handles (C19, C20) --------------------------------------------------------------------------------------
def sig_gen(r, count):
    return [scen("sig", "siggen-%d" % k, b) for k, b in enumerate(generated(r, "MCSig", "MCSigGen", count))]

def sig_random(r, count, length=60, wide=False, valid=False):
    """valid: nothing that only checked builds refuse"""
    out = []
    for q in range(count):
        ops = []; hd = {}; obj = []; H = list(range(1, 9)); val = set()
        def emit(**o): ops.append(o)
        def new():
            h = r.choice(H); ty = r.choice("siba"); z = r.randint(1, 4) if ty == "a" else 1
            emit(op="new", h=h, ty=ty, sz=z); obj.append((ty, z)); hd[h] = (ty, len(obj) - 1)
        for _ in range(3): new()
        while len(ops) < length:
            k = r.random(); hs = list(hd)
            if not hs or k < .07: new(); continue
            f = r.choice(hs)
            typed = [h for h in hs if hd[h][0] in "siba"]
            if k < .11:
                of = [r.choice(hs) for _ in range(r.randint(0, 3))]; h = r.choice(H)
                emit(op="bus", h=h, of=of); obj.append(("B", 0)); hd[h] = ("B", len(obj) - 1)
            elif k < .19: h = r.choice(H); emit(op="copy", h=h, **{"from": f}); hd[h] = hd[f]
            elif k < .30:
                h = r.choice(H); ty = r.choice(["g", obj[hd[f][1]][0], r.choice("sibaB")])
                emit(op="make", h=h, ty=ty, via=r.choice(["impl", "sig"]), **{"from": f})
                if ty == "g" or ty == obj[hd[f][1]][0]: hd[h] = (ty, hd[f][1])
            elif k < .40:
                c = [h for h in hs if hd[h][0] != "g"]
                if not c: continue
                h = r.choice(c)
                if r.random() < .5:
                    w = [x for x in hs if obj[hd[x][1]][0] == hd[h][0]]; f = r.choice(w)
                emit(op="reset", h=h, **{"from": f})
                if obj[hd[f][1]][0] == hd[h][0]: hd[h] = (hd[h][0], hd[f][1])
            elif k < .46: emit(op="drop", h=f); del hd[f]
            elif not typed: continue
            else:
                h = r.choice(typed); ty, z = obj[hd[h][1]]
                o = hd[h][1]
                if valid and k < .75 and o in val:
                    if r.random() < .6: emit(op="clear", h=h); val.discard(o)
                    else: emit(op="get", h=h)
                elif k < .65:
                    n = z if valid or ty != "a" or r.random() < .8 else r.choice([x for x in (0, 1, 2, 3, 5) if x != z])
                    v = [str(r.choice([r.randint(-9, 9), 2147483647, -2147483648]))] if ty == "i" else [str(r.randint(0, 1))] if ty == "b" else numbers(r, n)
                    emit(op="set", h=h, v=v); val.add(o)
                elif k < .75:
                    c = [x for x in typed if hd[x][0] == hd[h][0] and (not valid or (hd[x][1] in val and obj[hd[x][1]] == obj[o]))]
                    if not c: continue
                    val.add(o)
                    emit(op="asg", h=h, **{"from": r.choice(c)})
                elif k < .90:
                    if not valid or o in val: emit(op="get", h=h)
                else: emit(op="clear", h=h); val.discard(o)
        out.append(scen("sig", "sig-%d" % q, ops))
    return out

# --- buses (C21) ---------------------------------------------------------------------------------------------------------
def b_(s): return [ord(c) for c in s]
ASK = ["a", "b", "a_", "a!", "", "c", "a.a", "a.b", "b.a", "a.", ".a", "a.a.b", "a..a", "sig0", "sig1", "sig1.sig0", "."]
def ask_all(n, buses):
    ops = []
    for b in buses:
        for l in ASK:
            for o in ("at", "op", "iat", "try"): ops.append(dict(op=o, b=b, l=b_(l)))
        for k in range(4):
            for o in ("ati", "opi"): ops.append(dict(op=o, b=b, k=k))
    return ops
def bus_gen(r, count):
    out = []
    for k, b in enumerate(generated(r, "MCBus", "MCBusGen", count)):
        buses = [j + 1 for j, o in enumerate(b) if o["op"] == "bus"]
        out.append(scen("bus", "busgen-%d" % k, b + ask_all(len(b), buses)))
    return out
def bus_random(r, count, valid=False):
    out = []
    for q in range(count):
        ops = []; kinds = []; labels = ["a", "b", "c", "ab", "sig0", "sig1", "sig2", "sig10", "a.b", "x y", "", "Z_9", "-", "b!", "b_"]
        used = {}
        for k in range(r.randint(1, 5)):
            ops.append(dict(op="sig", ty=r.choice("siba"), nm=b_(r.choice(["", "", "p", "q.r", "a", "sig0"])))); kinds.append("v")
        for k in range(r.randint(1, 6)):
            auto = 1 if r.random() < .3 else 0
            m = r.choice([0, 1, 2, 3, 4, 5]) if r.random() < .85 else r.randint(10, 14)
            els = [dict(l=b_(r.choice(labels)), o=r.randint(1, len(kinds))) for _ in range(m)]
            ops.append(dict(op="bus", auto=auto, nm=b_(r.choice(["", "bus", "a"])), els=els)); kinds.append("B")
            used[len(kinds)] = ["sig%d" % j for j in range(m)] if auto else ["".join(chr(c) for c in e["l"]) for e in els]
        for b in used:
            for _ in range(r.randint(10, 30)):
                parts = [r.choice(used[b] or ["a"])] if r.random() < .7 else [r.choice(labels)]
                while r.random() < .5: parts.append(r.choice(r.choice(list(used.values())) or ["a"]) if r.random() < .8 else r.choice(labels))
                l = ".".join(parts)
                if r.random() < .3: l = l.replace("!", "_").replace(" ", "_").replace("-", "_")
                for o in r.sample(["at", "op", "iat", "try"], 2): ops.append(dict(op=o, b=b, l=b_(l)))
            for _ in range(4):
                w = r.choice(["ati", "opi"]); top = len(used[b]) - 1 if valid and w == "opi" else len(used[b]) + 1
                if top >= 0: ops.append(dict(op=w, b=b, k=r.randint(0, top)))
        out.append(scen("bus", "bus-%d" % q, ops))
    return out

# --- names (C22) ---------------------------------------------------------------------------------------------------------
def rname(r):
    k = r.random()
    if k < .1: return []
    if k < .5: return [r.randint(0, 255) for _ in range(r.randint(1, 12))]
    if k < .8: return [r.choice(b_("azAZ09_/. -[]{}@`:") + [0, 9, 127, 128, 255]) for _ in range(r.randint(1, 10))]
    if k < .9: return [r.randint(0, 255) for _ in range(r.randint(20, 300))]
    return b_(r.choice(["name", "a/b", "x.y", "_", "0", "sub sub"]))
def name_gen(r, count):
    return [scen("name", "namegen-%d" % k, b) for k, b in enumerate(generated(r, "MCName", "MCNameGen", count))]
def name_random(r, count):
    out = [scen("name", "name-bytes", [dict(op=o, nm=[c]) for c in range(256) for o in ("valid", "validasg")] +
                [dict(op="sig", ty="s", nm=[97, c, 98]) for c in range(256)])]
    for q in range(count):
        ops = []; leaf = []; sigs = 0; par = []
        for _ in range(r.randint(10, 40)):
            k = r.random(); subs = [j + 1 for j, l in enumerate(leaf) if not l]
            if k < .3 or not leaf:
                p = r.choice([0] + subs * 3); lf = 0 if r.random() < .75 else 1
                ops.append(dict(op="blk", par=p, leaf=lf, nm=rname(r))); leaf.append(lf); par.append(p)
            elif k < .45 and subs: ops.append(dict(op="setp", b=r.randint(1, len(leaf)), par=r.choice(subs)))
            elif k < .6: ops.append(dict(op="ren", b=r.randint(1, len(leaf)), nm=rname(r)))
            elif k < .7: ops.append(dict(op="sig", ty=r.choice("siba"), nm=rname(r))); sigs += 1
            elif k < .8 and sigs: ops.append(dict(op="rens", s=r.randint(1, sigs), nm=rname(r)))
            elif k < .87: ops.append(dict(op=r.choice(["valid", "validasg"]), nm=rname(r)))
            else: ops.append(dict(op=r.choice(["dot", "slash"]), a=rname(r), nm=rname(r)))
        out.append(scen("name", "name-%d" % q, ops))
    return out

# --- the hierarchy (C23) -------------------------------------------------------------------------------------------------
def visits(r, n, few=None):
    v = [dict(op="visit", b=b, lvl=l, max=m, stop=s, c=c) for b in range(1, n + 1) for l in (0, 1) for m in (-1, 0, 1, 2) for s in range(4) for c in (0, 1)]
    return r.sample(v, few) if few and few < len(v) else v
def tree_gen(r, count, few=24):
    out = []
    for k, b in enumerate(generated(r, "MCTree", "MCTreeGen", count)):
        n = sum(1 for o in b if o["op"] == "mk")
        out.append(scen("tree", "treegen-%d" % k, b + (visits(r, n, few) if n else [])))
    return out
def tree_random(r, count):
    out = []
    for q in range(count):
        ops = []; leaf = []
        for _ in range(r.randint(8, 30)):
            k = r.random(); subs = [j + 1 for j, l in enumerate(leaf) if not l]
            if k < .5 or not subs:
                lf = 0 if r.random() < .6 else 1
                ops.append(dict(op="mk", par=r.choice([0] + subs), leaf=lf)); leaf.append(lf)
            elif k < .85:
                ops.append(dict(op=r.choice(["setp", "add", "link"]), b=r.randint(1, len(leaf)), p=r.choice(subs)))
            else: ops.append(dict(op="visit", b=r.randint(1, len(leaf)), lvl=r.randint(0, 3), max=r.choice([-1, 0, 1, 2, 3, 4]), stop=r.choice([0, 0, 1, 2, 3, 5, 8]), c=r.randint(0, 1)))
        for b in range(1, len(leaf) + 1):
            for c in (0, 1):
                ops.append(dict(op="visit", b=b, lvl=r.randint(0, 2), max=-1, stop=0, c=c))
                ops.append(dict(op="visit", b=b, lvl=0, max=r.randint(0, 5), stop=r.randint(0, 6), c=c))
        out.append(scen("tree", "tree-%d" % q, ops))
    return out

# --- connections (C24) ---------------------------------------------------------------------------------------------------
def conn_gen(r, count):
    return [scen("conn", "conngen-%d" % k, b) for k, b in enumerate(generated(r, "MCConn", "MCConnGen", count))]
KINDS = {"gain": (1, 1), "pipe": (1, 1), "mem": (1, 1), "deriv": (1, 1), "integ": (1, 1), "add": (-1, 1), "mul": (-1, 1), "sub2": (2, 1), "const": (0, 1), "source": (-1, 1)}
def conn_random(r, count):
    out = []
    for q in range(count):
        ops = []; val = []; any_ = []; blks = []; alike = r.random() < .3
        for _ in range(r.randint(2, 5)): ops.append(dict(op="sig", ty="s", **({"nm": r.choice(["x", "x", "x1", ""])} if alike else {}))); any_.append(len(any_) + 1); val.append(len(any_))
        for _ in range(r.randint(0, 2)): ops.append(dict(op="bus", of=[r.choice(any_) for _ in range(r.randint(0, 3))])); any_.append(len(any_) + 1)
        for _ in range(r.randint(1, 5)):
            k = r.choice(list(KINDS) + ["plain", "sub", "func", "plain", "sub"])
            ni, no = KINDS.get(k, (r.choice([-1, 0, 1, 2, 3]), r.choice([-1, 0, 1, 2])))
            ops.append(dict(op="blk", k=k, ni=ni, no=no, late=r.randint(0, 1))); blks.append((k, ni, no))
        for _ in range(r.randint(5, 25)):
            b = r.randint(1, len(blks)); k, ni, no = blks[b - 1]
            want = lambda n: n if n >= 0 and r.random() < .6 else r.randint(0, 3)
            # blocks with typed ports are only given signals of their type; sums and products have at least one input
            pool = any_ if k in ("plain", "sub", "func") else val
            i = [r.choice(pool) for _ in range(max(want(ni), 1 if ni < 0 and k in KINDS else 0))]; o = [r.choice(pool) for _ in range(want(no))]
            c = dict(op=r.choice(["connect", "addb"]), b=b, i=i, o=o)
            if r.random() < .3 and k in ("plain", "sub", "func", "gain", "pipe"): c["il"] = ["l%d" % j for j in range(len(i))]
            ops.append(c)
        out.append(scen("conn", "conn-%d" % q, ops))
    return out

# --- histories (C17, C18) ------------------------------------------------------------------------------------------------
def hist_gen(r, count, read=("read", "csv")):
    out = []
    for k, b in enumerate(generated(r, "MCHist", "MCHistGen", count)):
        tail = [dict(op=x) for x in read] + [dict(op="shrink")] + [dict(op=x) for x in read]
        if "csv" in read and r.random() < .3: tail[-1]["pre"] = 1
        out.append(scen("hist", "histgen-%d" % k, b + tail))
    return out
def hnum(r): return r.choice([str(r.randint(-99, 99)), S(dy(r, -9, 9)), "%de%d" % (r.randint(-99, 99), r.randint(-20, 20)), "0.125", "-12345.5", "999999", "NaN", "Infinity", "-Infinity", "16777217"])
def hist_random(r, count, read=("read", "csv"), long=False, valid=False):
    out = []
    for q in range(count):
        ops = []; sg = []
        for k in range(r.randint(1, 6)):
            ty = r.choice("sibaa"); z = r.randint(1, 5) if ty == "a" else 1
            ops.append(dict(op="sig", ty=ty, sz=z, nm=r.choice(["n%d" % k] * 6 + ["n0", "n0", "time"]))); sg.append((ty, z))
        ops.append(dict(op="bus")); sg.append(("B", 0))
        def setv(s):
            ty, z = sg[s - 1]
            v = [str(r.choice([r.randint(-99, 99), r.randint(-2 ** 31, 2 ** 31 - 1), 16777217, 2 ** 31 - 1, -2 ** 31]))] if ty == "i" else [str(r.randint(0, 1))] if ty == "b" else [hnum(r) for _ in range(z)]
            ops.append(dict(op="set", s=s, v=v))
        for _ in range(r.randint(1, 2)):
            ops.append(dict(op="new", grow=r.choice([0, 1, 2, 3, 5, 10])))
            trk = set()
            for _ in range(r.randint(1, 2 * len(sg))):
                s = r.randint(1, len(sg))
                if r.random() < .75:
                    ops.append(dict(op="track", s=s))
                    if sg[s - 1][0] != "B": trk.add(s)
                else: ops.append(dict(op="untrack", s=s)); trk.discard(s)
            if not trk:
                s = r.randint(1, len(sg) - 1); ops.append(dict(op="track", s=s)); trk.add(s)
            n = 0
            for _ in range(r.randint(5, 60 if long else 30)):
                k = r.random()
                if k < .4: setv(r.randint(1, len(sg) - 1))
                elif k < .45: ops.append(dict(op="clear", s=r.randint(1, len(sg) - 1)))
                elif k < .85:
                    row = n if n == 0 or r.random() < .8 else r.randint(0, n - 1)
                    ops.append(dict(op="upd", k=row, t=hnum(r))); n = max(n, row + 1)
                elif k < .9: ops.append(dict(op="shrink"))
                elif k < .93: ops.append(dict(op=r.choice(["track", "untrack"]), s=r.randint(1, len(sg)))) if n and not valid else None
                else: ops.append(dict(op=r.choice(read)))
            if n == 0: setv(1); ops.append(dict(op="upd", k=0, t=hnum(r)))
            for x in read: ops.append(dict(op=x))
            ops.append(dict(op="shrink"))
            for x in read: ops.append(dict(op=x, **({"pre": 1} if x == "csv" and r.random() < .5 else {})))
        out.append(scen("hist", "hist-%d" % q, ops))
    return out

# --- steppers (C15, C16) -------------------------------------------------------------------------------------------------
def step_random(r, count, kinds):
    out = []
    for q in range(count):
        ops = []; ids = []; last = None
        for k in range(r.randint(1, 3)):
            kk = r.choice(kinds); ops.append(dict(op="new", id=k, k=kk)); ids.append(kk)
        for _ in range(r.randint(2, 10)):
            s = r.randrange(len(ids)); n = r.choice([1, 1, 2, 3, 4, 9])
            t0 = dy(r, -4, 8, 16)
            h = r.choice([dy(r, .0625, 3, 16), 10.0 ** r.randint(-6, 2), r.uniform(.001, 2)])
            k = r.choice(["lin", "lin", "mix", "sq", "exp", "table", "table"])
            mag = r.choice([.01, .3, 1, 1, 3, 20]) if k != "mix" else r.choice([.01, .1, .3, 1])
            if k == "mix": h = min(h, .5)
            rhs = dict(k=k, a=S(r.uniform(-1, 1) * mag), b=S(r.uniform(-1, 1) * mag), c=S(r.uniform(-1, 1) * mag))
            if r.random() < .15 and k in ("lin", "sq"): rhs.update(a="0", b="0")
            if k == "table":
                base = [dy(r, -2, 2) for _ in range(n)]; eps = 10.0 ** r.uniform(-7, 1)
                w = r.randrange(n) if r.random() < .4 else None
                rhs["d"] = [[S(x + (eps * r.uniform(-1, 1) if w is None or j == w else 0)) for j, x in enumerate(base)] for _ in range(6)]
            v0 = [S(r.choice([dy(r, -3, 3), r.uniform(-5, 5), 0.0, r.choice([-1, 1]) * 10.0 ** r.randint(3, 12)] if k != "mix" and r.random() < .2 else [dy(r, -3, 3), r.uniform(-5, 5), 0.0])) for _ in range(n)]
            if last and r.random() < .4:
                # a step tried again, or the next one: the same stepper, time, state or right-hand side
                o = last; s = o["id"] if r.random() < .8 else s
                if len(o["v0"]) == n or r.random() < .7:
                    if r.random() < .8: v0 = list(o["v0"]); n = len(v0)
                    t0 = float(o["t0"] if r.random() < .7 else o["t1"])
                    if r.random() < .5: h = float(o["t1"]) - float(o["t0"])
                    if r.random() < .4 and (rhs["k"] != "table" and o["rhs"]["k"] != "table"): rhs = dict(o["rhs"])
                    if rhs["k"] == "table": rhs["d"] = [(list(w) * n)[:n] for w in rhs["d"]]
                    if rhs["k"] == "mix": h = min(h, .5)
            op = dict(op="step", id=s, kind=ids[s], t0=S(t0), t1=S(t0 + h), v0=v0,
                      rhs=rhs, buf=r.choice(["own", "own", "fresh"]), pre=r.choice(["size", "other", "none"]), thr=0)
            if r.random() < .06: op["thr"] = r.randint(1, 6 if ids[s] == "rkf45" else 1)
            last = op; ops.append(op)
        out.append(scen("step", "step-%d" % q, ops))
    return out

# --- diagnostics (C25) ---------------------------------------------------------------------------------------------------
SINGLES = ["conn_ok", "conn_none", "conn_in2", "conn_out0", "conn_again", "conn_type", "add_ok", "add_bad", "bus_ok", "bus_label", "bus_sub", "bus_index", "bus_op", "bus_try",
           "make_ok", "make_bad", "reset_bad", "read_ok", "read_bad", "read_arr", "read_bool", "set_twice", "set_size", "set_ok", "hist_late", "hist_untrack_late", "hist_ok",
           "hist_get", "busmem_bad", "busmem_ok", "back", "forth", "loop_fast", "loop", "nostepper", "steps", "bad_limits", "zero_min"]
def diag_random(r, count):
    out = [scen("diag", "diag-singles", [dict(op="single", k=k) for k in SINGLES + SINGLES[::-1]])]
    for q in range(count):
        subs = []
        if r.random() < .1:
            for k in range(r.randint(8, 30)): subs.append(dict(par=k + 1, nm="s%d" % (k + 1)))
        else:
            for k in range(r.randint(0, 4)): subs.append(dict(par=r.randint(1, k + 1), nm="s%d" % (k + 1)))
        nb = r.randint(2, 7); blks = []
        # a chain, begun by a source and with an integrator and a memory in it
        kinds = ["source"] + [r.choice(["user", "user", "func", "gain", "mem", "integ"]) for _ in range(nb - 1)]
        for k, kd in enumerate(kinds):
            blks.append(dict(k=kd, par=r.randint(1, len(subs) + 1), nm="b%d" % (k + 1), i=k, o=k + 1))
        ns = nb
        if r.random() < .15:
            for x in subs + blks: x["nm"] += "_" + "long" * r.choice([5, 20, 80])
        # something with a state, so that the stepper has work
        if "integ" not in kinds: blks.append(dict(k="integ", par=1, nm="st", i=ns, o=ns + 1)); ns += 1
        ops = []; users = [k + 1 for k, b in enumerate(blks) if b["k"] in ("user", "func", "source")]
        uu = [k + 1 for k, b in enumerate(blks) if b["k"] == "user"]
        for _ in range(r.randint(1, 3)):
            where = r.choice(["act", "act", "act", "pre", "post", "input", "cb", "step", "step2"])
            kind = r.choice(["user", "int", "verify", "read", "twice", "lookup", "index", "type", "size", "connect"])
            b = 0
            if where == "act": b = r.choice(users)
            elif where in ("pre", "post"):
                if not uu: where, b = "act", r.choice(users)
                else: b = r.choice(uu)
            ops.append(dict(op="sim", eng=r.choice(["sim", "reuse", "fast"])))
            ops.append(dict(op="fault", b=b, where=where, kind=kind, nth=r.choice([1, 1, 2, 3, 5, 9, 40]), **({"len": r.choice([10, 30, 120, 1500])} if r.random() < .3 else {})))
            ops.append(dict(op="init", t="0"))
            ops.append(dict(op="run", t="1", mx="0.25"))
            if r.random() < .5: ops.append(dict(op="single", k=r.choice(SINGLES)))
        out.append(scen("diag", "diag-%d" % q, ops, subs=subs, ns=ns, root=r.choice(["root", "top"]), blks=blks))
    return out
