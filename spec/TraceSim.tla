------------------------------ MODULE TraceSim ------------------------------
(***************************************************************************)
(* Trace specification of simulations.  It follows the events recorded from  *)
(* the real simulators and blocks (driver/sim.cpp), one state per event, and *)
(* lets exactly the behaviours of PooyaBlocks / PooyaRun / PooyaStepper       *)
(* through.  Where an event departs from them, the departure is put into     *)
(* `bad` with the aspect of the behaviour it concerns, the logged value is   *)
(* adopted, and the rest of the trace is still checked.                      *)
(*                                                                           *)
(* Events: model (header), built, sim/use (simulator created / selected),    *)
(* call (init or run), inp (input callback), pre / act / post (block hooks), *)
(* scall / mcall / mret / sret (stepper), ret (call returned), end.          *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

INSTANCE PooyaBlocks WITH NAdd <- F64Add, NSub <- F64Sub, NMul <- F64Mul, NDiv <- F64Div, NFloor <- F64Floor,
                          NOf <- F64Of, NLt <- F64Lt, NLe <- F64Le, NClose <- F64Close
INSTANCE PooyaRun WITH RAdd <- F64Add, RSub <- F64Sub, RLt <- F64Lt, RLe <- F64Le
S == INSTANCE PooyaStepper WITH SAdd <- F64Add, SSub <- F64Sub, SMul <- F64Mul, SDiv <- F64Div, SOf <- F64Of, SLt <- F64Lt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line of the trace
          s,      \* what is known of the simulation
          ref,    \* results of the first scenario of the current group
          bad,    \* departures found
          cnt     \* what the trace exercised
vars == <<l, s, ref, bad, cnt>>

Chk(ok, aspect, msg) == IF ok THEN {} ELSE {<<aspect, ToString(msg)>>}   \* strings only: sets of them can be compared
R(st, b) == [s |-> st, b |-> b]
ExactSame(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : F64Eq(a[j], b[j])
Eq(a, b) == F64Close(a, b)

(***************************************************************************)
(* The model                                                                 *)
(***************************************************************************)
SzIn(h) == [j \in DOMAIN h.sigs |-> h.sigs[j].sz]
RECURSIVE Hidden(_, _)
Hidden(h, k) ==
    IF k > Len(h.blks) THEN <<>>
    ELSE LET b == h.blks[k] IN
         (IF b.k \in {"busmem", "buspipe"}
          THEN BusParts(b, h.buses, LAMBDA x : h.sigs[x].sz, LAMBDA x : h.sigs[x].ty) ELSE <<>>) \o Hidden(h, k + 1)
RECURSIVE AllStateOuts(_, _), AllDerivIns(_, _)
AllStateOuts(bs, k) == IF k > Len(bs) THEN <<>> ELSE StateOuts(bs[k]) \o AllStateOuts(bs, k + 1)
AllDerivIns(bs, k) == IF k > Len(bs) THEN <<>> ELSE DerivIns(bs[k]) \o AllDerivIns(bs, k + 1)
RECURSIVE CompsOf(_, _, _)
CompsOf(sts, sz, k) ==
    IF k > Len(sts) THEN <<>>
    ELSE [e \in 1..sz[sts[k]] |-> <<sts[k], e>>] \o CompsOf(sts, sz, k + 1)

MkModel(h) ==
    LET all == h.blks \o Hidden(h, 1)
        so == AllStateOuts(all, 1)
    IN [name |-> h.n, grp |-> h.g, B |-> all, nv |-> Len(h.blks),
        sz |-> SzIn(h), ty |-> [j \in DOMAIN h.sigs |-> h.sigs[j].ty],
        states |-> so, derivs |-> AllDerivIns(all, 1), stateset |-> Rng(so),
        comps |-> CompsOf(so, SzIn(h), 1),
        cderiv |-> CompsOf(AllDerivIns(all, 1), SzIn(h), 1),
        own |-> h.rootleaf = 0,   \* the model is a submodel with an input callback of its own, not a single block
        hid |-> UNION {Rng(all[k].o) : k \in (Len(h.blks) + 1)..Len(all)},
        badbus |-> \/ \E k \in DOMAIN h.blks : h.blks[k].k = "busmem" /\ UnusedInit(h.blks[k], h.buses) # {}
                   \/ \E k \in (Len(h.blks) + 1)..Len(all) : 0 \in Rng(all[k].o)]

NoSim == [eng |-> "", stp |-> "", cb |-> 0, mark |-> 0, inited |-> FALSE, tprev |-> "0", pi |-> <<>>]
Idle == [on |-> FALSE, h |-> [n |-> ""], M |-> [name |-> "", grp |-> ""], sims |-> <<>>, cs |-> 0, st |-> <<>>, cur |-> <<>>, done |-> {},
         pk |-> "none", pt |-> "0", inpopen |-> FALSE, srcs |-> {}, preD |-> {}, postD |-> {}, op |-> "", ctl |-> "idle",
         c |-> [t1 |-> "0", t2 |-> "0", force |-> FALSE], mn |-> "0", mx |-> "0", tgt |-> "0", svec |-> <<>>, v0 |-> <<>>, v1 |-> <<>>,
         mc |-> <<"0", <<>>, 0>>, calls |-> <<>>, sv |-> <<>>, rk |-> 0, xerr |-> 0, complete |-> TRUE,
         memo |-> <<>>, first |-> FALSE, rej |-> FALSE, inits |-> 0, dirty |-> FALSE, refused |-> FALSE, hist |-> FALSE, rows |-> <<>>]

Sz(x, j) == x.M.sz[j]
BlkStates(M) == [k \in DOMAIN M.B |-> InitState(M.B[k], LAMBDA j : M.sz[j])]
Blank(M) == [j \in DOMAIN M.sz |-> NoVal]
Vis(x) == 1..x.M.nv
Sim(x) == x.sims[x.cs]

\* Of a lean scenario only the results are recorded, to be compared with those of the other variants of its group.
Lean(ev) == "lean" \in DOMAIN ev /\ ev.lean = 1
DoModel(x, ev) ==
    IF Lean(ev) THEN R([Idle EXCEPT !.M = [name |-> ev.n, grp |-> ev.g], !.op = "lean"], {}) ELSE
    LET n0 == IF "n0" \in DOMAIN ev THEN ev.n0 ELSE Len(ev.blks)
        M == MkModel([ev EXCEPT !.blks = SubSeq(@, 1, n0)]) IN
    R([Idle EXCEPT !.on = TRUE, !.M = M, !.h = IF n0 < Len(ev.blks) THEN ev ELSE [n |-> ""], !.st = BlkStates(M), !.cur = Blank(M), !.memo = [k \in DOMAIN M.B |-> <<>>]], {})

\* The blocks up to n join the model; what the others remember stays.
DoGrow(x, ev) ==
    LET M == MkModel([x.h EXCEPT !.blks = SubSeq(@, 1, ev.n)])
        new == BlkStates(M)
    IN R([x EXCEPT !.M = M, !.st = [k \in DOMAIN new |-> IF k \in DOMAIN x.st THEN x.st[k] ELSE new[k]],
                   !.memo = [k \in DOMAIN M.B |-> <<>>]], {})

DoBuilt(x, ev) ==
    R([x EXCEPT !.on = ev.ok = 1],
      Chk(ev.tr = 0, "diag", "call trace not empty after building the model")
      \cup IF x.M.badbus THEN Chk(ev.ok = 0, "bus", "unusable bus block accepted")
           ELSE Chk(ev.ok = 1, "err", "building the model failed"))

DoSim(x, ev) ==
    LET n == [NoSim EXCEPT !.eng = ev.eng, !.stp = ev.stp.k, !.cb = ev.cb] IN
    R([x EXCEPT !.sims = Append(x.sims, n), !.cs = Len(x.sims) + 1], {})

(***************************************************************************)
(* Hidden blocks of bus blocks are activated as soon as they can be; blocks  *)
(* whose activation does nothing need no activation.                         *)
(***************************************************************************)
RECURSIVE Close(_, _)
Close(x, k) ==   \* k: next hidden block to look at
    IF k > Len(x.M.B) THEN x
    ELSE LET b == x.M.B[k] IN
         IF k \notin x.done /\ Ready(b, x.st[k], x.cur)
         THEN LET y == [x EXCEPT !.done = @ \cup {k},
                                 !.cur[b.o[1]] = Outputs(b, x.pt, x.cur, x.st[k], LAMBDA j : x.M.sz[j], LAMBDA j : x.M.ty[j])[1]]
              IN Close(y, x.M.nv + 1)
         ELSE Close(x, k + 1)
Closed(x) == Close(x, x.M.nv + 1)

(***************************************************************************)
(* The end of an evaluation                                                  *)
(***************************************************************************)
Evals == {"full", "minor", "commit"}
IsDisc(x) == x.pk = "full" /\ x.op = "init" /\ Sim(x).eng = "fast" /\ x.postD = {}
Commits(x) == x.pk \in {"full", "commit"} /\ ~IsDisc(x)
Missing(x) == {k \in Vis(x) : ~NoOp(x.M.B[k]) /\ k \notin x.done /\ Ready(x.M.B[k], x.st[k], x.cur)}
AllDone(x) == \A k \in DOMAIN x.M.B : k \in x.done \/ (NoOp(x.M.B[k]) /\ Ready(x.M.B[k], x.st[k], x.cur))

EndPass(x) ==
    IF x.pk = "none" THEN R(x, {})
    ELSE IF x.pk = "extra" THEN R([x EXCEPT !.pk = "none"], {})
    ELSE
    LET b == (IF x.pk \in Evals THEN Chk(Missing(x) = {}, "order", <<"blocks not activated although their inputs are there", Missing(x)>>) ELSE {})
             \cup (IF x.pk \in {"full", "start"} THEN Chk(x.preD = Vis(x), "hook", <<"begin-of-step hook not called", Vis(x) \ x.preD>>) ELSE {})
             \cup (IF Commits(x) THEN Chk(x.postD = Vis(x), "commit", <<"end-of-step hook not called", Vis(x) \ x.postD>>) ELSE {})
             \cup Chk(x.srcs = (IF x.M.own THEN {"root"} ELSE {}) \cup (IF Sim(x).cb = 1 THEN {"cb"} ELSE {}), "fresh", <<"input callbacks called", x.srcs>>)
        y == IF Commits(x)
             THEN [x EXCEPT !.st = [k \in DOMAIN x.st |-> CommitState(x.M.B[k], x.pt, x.cur, x.st[k])], !.memo = [k \in DOMAIN x.memo |-> <<>>],
                            !.ctl = IF x.ctl = "e_full" THEN "e_ret" ELSE @]
             ELSE x
    IN R([y EXCEPT !.pk = "none", !.complete = (IF x.pk = "full" THEN AllDone(x) ELSE @)], b)

(***************************************************************************)
(* The start of an evaluation: an input callback                             *)
(***************************************************************************)
\* kind of the evaluation that is due, its time, the control state while in it
Due(x) ==
    CASE x.ctl = "e_full" -> <<"full", x.tgt, IF x.op = "init" /\ Sim(x).eng = "fast" THEN "e_full" ELSE "e_ret">>
      [] x.ctl = "e_start0" -> <<"start", x.tgt, "e_rep">>
      [] x.ctl = "e_rep" -> <<"commit", x.tgt, "e_ret">>
      [] x.ctl = "e_start" -> <<"start", x.c.t1, "e_scall">>
      [] x.ctl = "m" -> <<"minor", x.mc[1], "m2">>
      [] x.ctl = "e_commit" -> <<"commit", x.c.t1, "e_start">>
      [] x.ctl = "e_final" -> <<"commit", x.tgt, "e_ret">>
      [] OTHER -> <<"extra", "0", x.ctl>>

\* the state components that a state vector gives, in the order of M.comps (needs pi)
FromVec(x, v) == [q \in DOMAIN x.M.comps |-> v[Sim(x).pi[q]]]
CompVal(x, cur, q) == IF cur[x.M.comps[q][1]] = NoVal THEN "NaN" ELSE cur[x.M.comps[q][1]][x.M.comps[q][2]]
Distinct(v) == \A p, q \in DOMAIN v : p # q => ~Eq(v[p], v[q])

\* the positions of the state components in the vector v, given the values the signals show; <<>> if unclear
FindPi(x, v, cur) ==
    IF Len(v) # Len(x.M.comps) \/ ~Distinct(v) THEN <<>>
    ELSE IF \E q \in DOMAIN x.M.comps : \A j \in DOMAIN v : ~Eq(v[j], CompVal(x, cur, q)) THEN <<>>
    ELSE [q \in DOMAIN x.M.comps |-> CHOOSE j \in DOMAIN v : Eq(v[j], CompVal(x, cur, q))]

KindAspect(k) ==
    CASE k \in {"integ", "so2"} -> "int" [] k = "trig" -> "trg" [] k = "mem" -> "mem" [] k = "delay" -> "dly"
      [] k = "deriv" -> "der" [] k = "inival" -> "ini" [] k \in {"busmem", "buspipe"} -> "bus" [] OTHER -> "alg"
\* the aspect of the block whose state a signal is
StateAspect(x, j) == KindAspect(x.M.B[CHOOSE k \in DOMAIN x.M.B : j \in Rng(StateOuts(x.M.B[k]))].k)

BeginPass(x, ev) ==
    LET due == Due(x)
        pre == [j \in DOMAIN x.M.sz |-> IF \E m \in DOMAIN ev.pre : ev.pre[m][1] = j
                                        THEN ev.pre[CHOOSE m \in DOMAIN ev.pre : ev.pre[m][1] = j][2] ELSE NoVal]
        leaked == {j \in DOMAIN pre : pre[j] # NoVal /\ (due[1] \in {"full", "start"} \/ j \notin x.M.stateset)}
        base == [j \in DOMAIN pre |-> IF j \in leaked THEN NoVal ELSE pre[j]]
        withstates == due[1] \in {"minor", "commit"}
        vec == IF due[1] = "minor" THEN x.mc[2] ELSE x.v1
        pi1 == IF due[1] = "minor" /\ Sim(x).pi = <<>> THEN FindPi(x, vec, base) ELSE Sim(x).pi
        y == [x EXCEPT !.sims[x.cs].pi = pi1]
        b == Chk(due[1] # "extra", "ctl", <<"unexpected evaluation", x.ctl>>)
             \cup (IF due[1] = "extra" THEN {} ELSE
                   Chk(leaked = {}, "fresh", <<"values left over from an earlier evaluation", leaked>>)
                   \cup Chk(F64Eq(ev.t, due[2]), "fresh", <<"inputs evaluated at", ev.t, "instead of", due[2]>>)
                   \cup Chk(x.ctl \notin {"e_commit", "e_final", "e_start"} \/ F64Eq(ev.t, due[2]), "step", <<"after a step, an evaluation at", ev.t, "instead of", due[2]>>)
                   \cup (IF withstates
                         THEN Chk(\A j \in x.M.stateset : base[j] # NoVal, "int", "states not set before the evaluation")
                              \cup (IF vec = <<>> THEN {} ELSE
                                    IF pi1 # <<>>
                                    THEN Chk(Len(vec) = Len(pi1) /\ \A q \in DOMAIN pi1 : F64Eq(CompVal(x, base, q), vec[pi1[q]]), "int",
                                             <<"states differ from what was asked for", vec>>)
                                    ELSE Chk(~Distinct(vec), "int", <<"states are not the ones asked for", vec>>))
                              \cup (IF x.ctl # "e_rep" THEN {} ELSE
                                    UNION {Chk(base[j] = NoVal \/ ExactSame(base[j], x.cur[j]), "time", "states changed by repeating a time")
                                           \cup Chk(base[j] = NoVal \/ ExactSame(base[j], x.cur[j]), StateAspect(x, j), "state changed by repeating a time")
                                           : j \in x.M.stateset})
                         ELSE {}))
    IN R([y EXCEPT !.pk = due[1], !.pt = IF due[1] = "extra" \/ F64Eq(ev.t, due[2]) THEN ev.t ELSE due[2], !.ctl = due[3], !.cur = base, !.done = {},
                   !.preD = {}, !.postD = {}, !.srcs = {}], b)

SetInputs(x, ev) ==
    LET RECURSIVE Put(_, _)
        Put(cur, m) == IF m > Len(ev.set) THEN cur ELSE Put([cur EXCEPT ![ev.set[m][1]] = ev.set[m][2]], m + 1)
    IN Closed([x EXCEPT !.cur = Put(@, 1), !.inpopen = TRUE, !.srcs = @ \cup {ev.src}])

DoInp(x, ev) ==
    IF x.inpopen
    THEN R(SetInputs(x, ev), IF x.pk = "extra" THEN {} ELSE Chk(F64Eq(ev.t, x.pt), "fresh", <<"inputs evaluated at", ev.t, "instead of", x.pt>>))
    ELSE LET e == EndPass(x)
             g == BeginPass(e.s, ev)
         IN R(SetInputs(g.s, ev), e.b \cup g.b)

(***************************************************************************)
(* Block hooks                                                               *)
(***************************************************************************)
Pos(seq, v) == CHOOSE j \in DOMAIN seq : seq[j] = v
\* blocks that only move values do so to the last bit; sums may be taken in any order
Moves == {"pipe", "mem", "inival", "const"}
Sums == {"add", "sofn", "func"}
Fits(b, seen, got, exp) ==
    IF b.k \in Moves THEN ExactSame(got, exp)
    ELSE IF b.k \in Sums
    THEN Len(got) = Len(exp) /\ \A j \in DOMAIN got :
           \/ Eq(got[j], exp[j])
           \/ F64Finite(exp[j]) /\ F64Finite(got[j]) /\ \E m \in DOMAIN b.i : F64CloseBy(got[j], exp[j], seen[b.i[m]][j])
    ELSE Same(got, exp)
\* what the output of a block that remembers may depend on between two accepted steps
\* (compared literally, as a quotient over a tiny interval depends on every bit)
MemoKey(b, ev) ==
    CASE b.k \in {"mem", "inival"} -> <<>>
      [] b.k = "deriv" -> <<ev.t, ev.in[1]>>
      [] b.k = "delay" -> <<ev.t, ev.in[2], ev.in[3]>>

DoPre(x0, ev) ==
    LET x == [x0 EXCEPT !.inpopen = FALSE]
        b == x.M.B[ev.b]
        so == StateOuts(b)
        exp == StartOuts(b, x.st[ev.b])
        \* logged outputs are in the order of b.o
        got(j) == ev.out[Pos(b.o, so[j])]
        RECURSIVE Put(_, _)
        Put(cur, j) == IF j > Len(so) THEN cur ELSE Put([cur EXCEPT ![so[j]] = got(j)], j + 1)
    IN IF x.pk = "extra" THEN R(x, {})
       ELSE IF x.pk \notin {"full", "start"} THEN R(x, {<<"hook", ToString(<<"begin-of-step hook called during", x.pk, x.M.name>>)>>})
       ELSE R(Closed([x EXCEPT !.preD = @ \cup {ev.b}, !.cur = Put(@, 1), !.st[ev.b] = StartState(b, @)]),
              Chk(ev.b \notin x.preD, "hook", "begin-of-step hook called twice")
              \cup Chk(F64Eq(ev.t, x.pt), "hook", <<"begin-of-step hook at", ev.t, "instead of", x.pt>>)
              \cup Chk(\A j \in DOMAIN so : ExactSame(got(j), exp[j]), KindAspect(b.k), <<"state at step start", b.k, ev.out, "expected", exp>>))

DoAct(x0, ev) ==
    LET x == [x0 EXCEPT !.inpopen = FALSE]
        k == ev.b
        b == x.M.B[k]
        ao == ActOuts(b)
        \* inputs as the block saw them; where it saw none, none
        seen == [j \in DOMAIN x.cur |-> IF \E m \in DOMAIN b.i : b.i[m] = j THEN ev.in[CHOOSE m \in DOMAIN b.i : b.i[m] = j] ELSE x.cur[j]]
        req == Required(b, x.st[k])
        early == {j \in req : x.cur[j] = NoVal}
        wrong == {j \in Rng(b.i) : seen[j] # NoVal /\ (x.cur[j] = NoVal \/ ~Same(seen[j], x.cur[j]))}
                 \cup {j \in Rng(b.i) \cap req : seen[j] = NoVal /\ x.cur[j] # NoVal}
        computable == \A j \in req : seen[j] # NoVal
        exp == Outputs(b, x.pt, seen, x.st[k], LAMBDA j : x.M.sz[j], LAMBDA j : x.M.ty[j])
        got(j) == ev.out[Pos(b.o, ao[j])]
        RECURSIVE Put(_, _)
        Put(cur, j) == IF j > Len(ao) THEN cur ELSE Put([cur EXCEPT ![ao[j]] = got(j)], j + 1)
    IN IF x.pk = "extra" THEN R(x, {})
       ELSE IF x.pk \notin Evals THEN R(x, {<<"ctl", ToString(<<"activation outside an evaluation", x.pk>>)>>})
       ELSE IF NoOp(b) THEN R([x EXCEPT !.done = @ \cup {k}], Chk(early = {}, "order", <<"activated before its inputs", b.k>>))
       ELSE R(Closed([x EXCEPT !.done = @ \cup {k}, !.cur = Put(@, 1),
                               !.memo[k] = IF b.k \in {"mem", "inival", "deriv", "delay"} THEN Append(@, <<MemoKey(b, ev), ev.out[1]>>) ELSE @,
                               !.st[k] = IF computable THEN ActState(b, seen, @) ELSE @]),
              Chk(k \notin x.done, "order", <<"activated twice in one evaluation", b.k>>)
              \cup Chk(early = {}, "order", <<"activated before its inputs", b.k, early>>)
              \cup Chk(x.postD = {}, "commit", <<"activated after an end-of-step hook", b.k>>)
              \cup Chk(wrong \cap x.M.hid = {}, "bus", <<"bus signal", wrong>>)
              \cup Chk(wrong \ x.M.hid = {}, "fresh", <<"inputs differ from the values of this evaluation", wrong, ev.in>>)
              \cup Chk(F64Eq(ev.t, x.pt), "fresh", <<"activated with time", ev.t, "instead of", x.pt>>)
              \cup (IF b.k \notin {"mem", "inival", "deriv", "delay"} THEN {} ELSE
                    Chk(\A m \in DOMAIN x.memo[k] : x.memo[k][m][1] = MemoKey(b, ev) => Same(x.memo[k][m][2], ev.out[1]), "retry",
                        <<"output of", b.k, "changed between accepted steps", ev.out[1], x.memo[k]>>))
              \cup (IF ~computable THEN {} ELSE
                    Chk(\A j \in DOMAIN ao : Fits(b, seen, got(j), exp[j]), KindAspect(b.k),
                        <<"output of", b.k, "at", x.pt, "in", ev.in, "out", ev.out, "expected", exp>>)))

DoPost(x0, ev) ==
    LET x == [x0 EXCEPT !.inpopen = FALSE] IN
    IF x.pk = "extra" THEN R(x, {})
    ELSE IF x.pk \notin {"full", "commit"} THEN R(x, {<<"commit", ToString(<<"end-of-step hook called during", x.pk>>)>>})
    ELSE R([x EXCEPT !.postD = @ \cup {ev.b}],
           Chk(ev.b \notin x.postD, "commit", "end-of-step hook called twice")
           \cup Chk(F64Eq(ev.t, x.pt), "commit", <<"end-of-step hook at", ev.t, "instead of", x.pt>>))

(***************************************************************************)
(* The stepper                                                               *)
(***************************************************************************)
DoScall(x0, ev) ==
    LET e == EndPass([x0 EXCEPT !.inpopen = FALSE])
        x == e.s
        comps == [q \in DOMAIN x.M.comps |-> CompVal(x, x.cur, q)]
        pi == Sim(x).pi
        b == e.b
             \cup Chk(x.ctl = "e_scall", "ctl", <<"stepper called unexpectedly", x.ctl>>)
             \cup (IF x.ctl # "e_scall" THEN {} ELSE
                   Chk(F64Eq(ev.t0, x.c.t1), "step", <<"step from", ev.t0, "instead of", x.c.t1>>)
                   \cup Chk(~x.first \/ F64Eq(ev.t0, x.c.t1), "time", <<"run from", ev.t0, "instead of", x.c.t1>>)
                   \cup Chk(~x.rej \/ (F64Eq(ev.t0, x.c.t1) /\ Len(ev.v0) = Len(x.v0) /\ \A j \in DOMAIN x.v0 : F64Eq(ev.v0[j], x.v0[j])), "retry",
                            <<"retry from", ev.t0, ev.v0, "instead of", x.c.t1, x.v0>>)
                   \cup Chk(F64SumOf(ev.t1, x.c.t2, F64Add(S!SAbs(x.c.t1), S!SAbs(x.c.t2))), "step", <<"step from", ev.t0, "to", ev.t1, "instead of", x.c.t2>>)
                   \cup Chk(Len(ev.v0) = Len(comps), "int", <<"size of the state vector", Len(ev.v0)>>)
                   \cup (IF Len(ev.v0) # Len(comps) THEN {} ELSE
                         IF pi # <<>>
                         THEN Chk(\A q \in DOMAIN pi : F64Eq(ev.v0[pi[q]], comps[q]), "int", <<"initial states", ev.v0, "expected", comps>>)
                         ELSE Chk(\A q \in DOMAIN comps : \E j \in DOMAIN comps : F64Eq(ev.v0[j], comps[q]), "int", <<"initial states", ev.v0, "expected", comps>>)))
    IN R([x EXCEPT !.ctl = IF x.ctl = "e_scall" THEN "in" ELSE "lost", !.c.t1 = ev.t0, !.c.t2 = ev.t1, !.v0 = ev.v0, !.calls = <<>>, !.first = FALSE,
                   !.sv = x.cur], b)

DoMcall(x, ev) == R([x EXCEPT !.ctl = IF x.ctl = "in" THEN "m" ELSE x.ctl, !.mc = <<ev.t, ev.v, ev.m>>, !.inpopen = FALSE], {})

DoMret(x0, ev) ==
    LET e == EndPass([x0 EXCEPT !.inpopen = FALSE])
        x == e.s
        pi == Sim(x).pi
        dv(q) == LET d == x.M.cderiv[q] IN IF x.cur[d[1]] = NoVal THEN "NaN" ELSE x.cur[d[1]][d[2]]
        b == e.b
             \cup UNION {Chk(x.ctl = "m2", a, <<"model not evaluated for the stepper", x.ctl>>) : a \in {"ctl", "fresh", "int"}}
             \cup (IF x.ctl # "m2" THEN {} ELSE
                   Chk(Len(ev.d) = Len(x.M.comps), "int", <<"number of derivatives", Len(ev.d)>>)
                   \cup (IF pi = <<>> \/ Len(ev.d) # Len(pi) THEN {} ELSE
                         Chk(\A q \in DOMAIN pi : F64Eq(ev.d[pi[q]], dv(q)), "int",
                             <<"derivatives", ev.d, "expected", [q \in DOMAIN pi |-> dv(q)], "at", pi>>)))
    IN R([x EXCEPT !.ctl = "in", !.calls = IF x.mc[3] = 1 THEN @ ELSE Append(@, [t |-> x.mc[1], v |-> x.mc[2], d |-> ev.d])], b)

\* equal up to the rounding of the sum that makes it
VSum(a, b, v0, h, d, m) == Len(a) = Len(b) /\ \A j \in DOMAIN a : F64SumOf(a[j], b[j], S!SizeOf(v0[j], h, d, m, j))
HEq(a, b) == F64SumOf(a, b, b)
\* what a named stepper must have done
StepperBad(kind, calls, v0, t0, h, v1, nh) ==
    IF kind \notin {"euler", "rk4", "rkf45"} THEN {}
    ELSE LET ns == Len(S!Tableau[kind].c)
             d == [j \in DOMAIN calls |-> calls[j].d] IN
         Chk(Len(calls) = ns, "stepper", <<"number of stages", Len(calls)>>)
         \cup (IF Len(calls) # ns THEN {} ELSE
               UNION {Chk(F64SumOf(calls[j].t, S!StageTime(kind, j, t0, h), F64Add(S!SAbs(t0), h)), "stepper", <<"stage", j, "time", calls[j].t>>)
                      \cup Chk(VSum(calls[j].v, S!StageState(kind, j, v0, h, d), v0, h, d, j - 1), "stepper", <<"stage", j, "state", calls[j].v>>) : j \in 1..ns}
               \cup Chk(VSum(v1, S!Result(kind, v0, h, d), v0, h, d, ns), "stepper", <<"result", v1, "expected", S!Result(kind, v0, h, d)>>)
               \cup (IF kind # "rkf45" THEN Chk(HEq(nh, h), "stepper", <<"suggestion", nh, "for", h>>)
                     ELSE LET err == S!ErrOf(v0, h, d)
                              r == S!RatioOf(h, err)
                              zero == \A j \in DOMAIN d : \A m \in DOMAIN d[j] : F64Eq(d[j][m], "0")
                              noise == F64Mul("1e-14", S!MaxAbs([e \in DOMAIN v0 |-> S!SizeOf(v0[e], h, d, ns, e)], 1, "0"))
                          IN Chk(IF zero THEN HEq(nh, h) ELSE S!MayBe(nh, h, err, noise, HEq), "stepper",
                                 <<"suggestion", nh, "for", h, "ratio", r, "error", err>>)))

DoSret(x0, ev) ==
    LET x == [x0 EXCEPT !.inpopen = FALSE]
        h == F64Sub(x.c.t2, x.c.t1)
        acc == Accept(x.c, ev.nh, x.mn)
        c2 == AfterReply(x.c, ev.nh, x.mn, x.mx, x.tgt)
        b == Chk(ExactSame(ev.v0, x.v0), "stepper", "the stepper changed its initial state")
             \cup StepperBad(Sim(x).stp, x.calls, x.v0, x.c.t1, h, ev.v1, ev.nh)
    IN IF x.ctl # "in" THEN R([x EXCEPT !.ctl = "lost"], {})
       ELSE R([x EXCEPT !.c = c2, !.rej = ~acc, !.v1 = IF acc THEN ev.v1 ELSE @,
                        !.ctl = IF ~acc THEN "e_start" ELSE IF RunDone(c2, x.tgt) THEN "e_final" ELSE "e_commit"], b)

(***************************************************************************)
(* Calls                                                                     *)
(***************************************************************************)
DoCall(x, ev) ==
    LET m == Sim(x)
        init == ev.op = "init" \/ ~m.inited
        stateful == x.M.comps # <<>>
        ctl == IF init \/ ~stateful THEN "e_full"
               ELSE IF F64Lt(ev.t, m.tprev) THEN "e_err"
               ELSE IF F64Eq(ev.t, m.tprev) THEN "e_start0"
               ELSE "e_start"
        mn == IF "mn" \in DOMAIN ev THEN ev.mn ELSE "0.001"
        mx == IF "mx" \in DOMAIN ev THEN ev.mx ELSE "1"
    IN R([x EXCEPT !.op = IF init THEN "init" ELSE "run", !.ctl = ctl, !.tgt = ev.t, !.mn = mn, !.mx = mx,
                   !.c = StartRun(m.tprev, ev.t, mx), !.pk = "none", !.inpopen = FALSE, !.v1 = <<>>, !.complete = TRUE, !.first = TRUE, !.rej = FALSE,
                   !.inits = IF init THEN @ + 1 ELSE @,
                   !.sims[x.cs].pi = IF init THEN <<>> ELSE @,
                   !.xerr = IF "xerr" \in DOMAIN ev THEN ev.xerr ELSE 0], {})

SnapBad(x, snap, aspect) ==
    LET diff == {j \in DOMAIN x.cur : ~Same(snap[j], x.cur[j])} IN
    Chk(diff \cap x.M.hid = {}, "bus", <<"bus signals after the call", diff>>)
    \cup Chk(diff \ x.M.hid = {}, aspect, <<"signals after the call", diff, snap, "expected", x.cur>>)

DoRet(x0, ev) ==
    LET fail == ev.ok = 0
        e == IF fail THEN (IF x0.ctl = "e_full" THEN EndPass([x0 EXCEPT !.inpopen = FALSE]) ELSE R(x0, {})) ELSE EndPass([x0 EXCEPT !.inpopen = FALSE])
        x == e.s
        tr == Chk(ev.tr = 0, "diag", "call trace not empty after the call")
        fastrefuse == x.op = "init" /\ Sim(x).eng = "fast" /\ ~x.complete
    IN IF x.xerr = 1 THEN R([x EXCEPT !.pk = "none", !.inpopen = FALSE, !.ctl = "idle"], tr \cup Chk(fail, "diag", "an expected error was not reported"))
       ELSE IF x.ctl = "e_err"
       THEN R([x EXCEPT !.ctl = "idle", !.pk = "none", !.inpopen = FALSE, !.refused = TRUE],
              tr \cup Chk(fail, "time", "going back in time was not refused")
              \cup SnapBad(x, ev.snap, "time"))
       ELSE IF fail
       THEN IF fastrefuse THEN R([x EXCEPT !.ctl = "idle", !.pk = "none"], tr \cup {y \in e.b : y[1] # "order"})
            ELSE R([x EXCEPT !.on = FALSE], tr \cup e.b \cup {<<"err", ToString(<<"unexpected error", ev.why>>)>>})
       ELSE R([x EXCEPT !.sims[x.cs].inited = TRUE, !.sims[x.cs].tprev = x.tgt, !.ctl = "idle", !.rk = @ + 1, !.refused = FALSE,
                        !.rows = IF x.hist THEN Append(@, [t |-> x.tgt, v |-> ev.snap]) ELSE @],
              tr \cup e.b
              \cup Chk(~fastrefuse, "order", "the fast simulator accepted a model it cannot run")
              \cup (IF x.ctl = "e_ret" \/ fastrefuse THEN {} ELSE
                    UNION {Chk(FALSE, a, <<"the call returned although more was due", x.ctl>>) : a \in {"ctl", "fresh", "commit"}})
              \cup SnapBad(x, ev.snap, "fresh"))

\* A history that records the results of each call (PooyaHist: a row per recording, zeros for what is not assigned)
DoRows(x, ev) ==
    R(x, Chk(Len(ev.t) = Len(x.rows), "rows", <<"number of rows", Len(ev.t), "expected", Len(x.rows)>>)
         \cup Chk(ev.tr = 0, "diag", "call trace not empty after reading a history")
         \cup (IF Len(ev.t) # Len(x.rows) THEN {} ELSE
               Chk(\A k \in DOMAIN x.rows : F64Eq(ev.t[k], x.rows[k].t), "rows", <<"times", ev.t>>)
               \cup UNION {LET j == ev.ids[m]
                              want(k) == IF x.rows[k].v[j] = NoVal THEN VZero(x.M.sz[j]) ELSE x.rows[k].v[j]
                          IN Chk(Len(ev.cols[m]) = Len(x.rows) /\ \A k \in DOMAIN x.rows : ExactSame(ev.cols[m][k], want(k)), "rows",
                                 <<"recorded values of signal", j, ev.cols[m], "expected", [k \in DOMAIN x.rows |-> want(k)]>>)
                          : m \in DOMAIN ev.ids}))

(***************************************************************************)
(* Groups of scenarios that must give the same results                       *)
(***************************************************************************)
RefItem(ev) == CASE ev.e = "ret" -> <<"ret", ev.ok, ev.snap>>
                 [] ev.e = "scall" -> <<"scall", ev.t0, ev.t1>>
SameItem(a, b) ==
    /\ a[1] = b[1]
    /\ IF a[1] = "scall" THEN Eq(a[2], b[2]) /\ Eq(a[3], b[3])
       ELSE a[2] = b[2] /\ (a[2] = 0 \/ (Len(a[3]) = Len(b[3]) /\ \A j \in DOMAIN a[3] : Same(a[3][j], b[3][j])))
DoRef(r, ev) ==
    IF ev.e = "model"
    THEN IF ev.g # "" /\ ev.g = r.g THEN [r EXCEPT !.first = FALSE, !.k = 1]
         ELSE [g |-> ev.g, first |-> TRUE, k |-> 1, items |-> <<>>]
    ELSE IF r.g = "" \/ ev.e \notin {"ret", "scall"} THEN r
    ELSE IF r.first THEN [r EXCEPT !.items = Append(@, RefItem(ev))]
    ELSE [r EXCEPT !.k = @ + 1]
RefBad(r, ev) ==
    IF r.g = "" \/ r.first THEN {}
    ELSE IF ev.e \in {"ret", "scall"}
    THEN Chk(r.k <= Len(r.items) /\ SameItem(r.items[r.k], RefItem(ev)), "cmp",
             <<"differs from the first variant", IF ev.e = "ret" THEN ev.snap ELSE <<ev.t0, ev.t1>>, IF r.k <= Len(r.items) THEN r.items[r.k] ELSE "nothing">>)
    ELSE IF ev.e = "end" THEN Chk(r.k = Len(r.items) + 1, "cmp", "the first variant did more")
    ELSE {}

(***************************************************************************)
(* The trace                                                                 *)
(***************************************************************************)
Apply(x, ev) ==
    CASE ev.e = "model" -> DoModel(x, ev)
      [] ev.e = "end" -> R(Idle, {})
      [] x.op = "lean" -> R(x, IF ev.e = "ret" THEN Chk(ev.ok = 1, "err", <<"unexpected error", ev.why>>)
                               ELSE IF ev.e = "built" THEN Chk(ev.ok = 1, "err", "building the model failed") ELSE {})
      [] ~x.on -> R(x, {})
      [] ev.e = "built" -> DoBuilt(x, ev)
      [] ev.e = "sim" -> DoSim(x, ev)
      [] ev.e = "grow" -> DoGrow(x, ev)
      [] ev.e = "hist" -> R([x EXCEPT !.hist = TRUE, !.rows = <<>>], {})
      [] ev.e = "rows" -> DoRows(x, ev)
      [] ev.e = "use" -> R([x EXCEPT !.cs = ev.id], {})
      [] ev.e = "call" -> DoCall(x, ev)
      [] ev.e = "ret" -> DoRet(x, ev)
      [] x.ctl = "lost" -> R(x, {})
      [] ev.e = "inp" -> DoInp(x, ev)
      [] ev.e = "pre" -> DoPre(x, ev)
      [] ev.e = "act" -> DoAct(x, ev)
      [] ev.e = "post" -> DoPost(x, ev)
      [] ev.e = "scall" -> DoScall(x, ev)
      [] ev.e = "mcall" -> DoMcall(x, ev)
      [] ev.e = "mret" -> DoMret(x, ev)
      [] ev.e = "sret" -> DoSret(x, ev)

\* Departures that come up only after a second initialization (by whichever simulator) concern that initialization,
\* and those that come up after a refused run concern the refusal.
Also(x, b) ==
    b \cup (IF x.on /\ x.inits > 1 /\ ~x.dirty THEN {<<"again", y[2]>> : y \in b} ELSE {})
      \cup (IF x.on /\ x.refused /\ ~x.dirty THEN {<<"time", y[2]>> : y \in b} ELSE {})
Counted == {"model", "act", "post", "scall", "sret", "mcall", "ret"}
Init == l = 1 /\ s = Idle /\ ref = [g |-> "", first |-> TRUE, k |-> 1, items |-> <<>>] /\ bad = {}
        /\ cnt = [model |-> 0, act |-> 0, post |-> 0, scall |-> 0, sret |-> 0, mcall |-> 0, ret |-> 0, rejected |-> 0, errors |-> 0]
Next ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l]
           r == Apply(s, ev)
           al == Also(s, r.b)
           rb == RefBad(ref, ev)
           nm == IF ev.e = "model" THEN ev.n ELSE s.M.name
       IN /\ s' = IF r.s.on /\ r.s.inits <= 1 /\ ~r.s.refused /\ r.b # {} THEN [r.s EXCEPT !.dirty = TRUE] ELSE r.s
          /\ ref' = DoRef(ref, ev)
          /\ bad' = bad \cup {<<l, nm, x[1], x[2]>> : x \in {y \in al \cup rb : Cardinality({z \in bad : z[3] = y[1]}) < 50}}
          /\ cnt' = [k \in DOMAIN cnt |->
                       cnt[k] + (IF k = ev.e THEN 1
                                 ELSE IF k = "rejected" /\ ev.e = "sret" /\ r.s.ctl = "e_start" THEN 1
                                 ELSE IF k = "errors" /\ ev.e = "ret" /\ ev.ok = 0 THEN 1 ELSE 0)]
    /\ l' = l + 1
Spec == Init /\ [][Next]_vars

\* reports what was found when the last line has been consumed
Report == l = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([lines |-> Len(Trace), bad |-> bad, cnt |-> cnt])>>)
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
