----------------------------- MODULE PooyaBlocks -----------------------------
(***************************************************************************)
(* The blocks of pooya: what each kind requires before it can be activated, *)
(* what it outputs, what it remembers, and when it commits what it           *)
(* remembers.  The number system is a parameter, so that the same            *)
(* definitions are model-checked over small integers (MC*.tla) and bound to  *)
(* the implementation's binary64 numbers (Trace*.tla).                       *)
(*                                                                           *)
(* A value is a sequence of numbers: one number for scalar, integer and      *)
(* boolean signals (a boolean is the number 0 or 1), n for an array of size  *)
(* n.  <<>> means "not assigned in this evaluation".                         *)
(*                                                                           *)
(* A block is a record                                                       *)
(*   k   kind, ty  signal type ("s" scalar, "i" int, "b" bool, "a" array)    *)
(*   p   numeric parameters                                                  *)
(*   i   input signals, il  their labels, o  output signals                  *)
(*   fn / fns  time functions of sources                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NAdd(_, _), NSub(_, _), NMul(_, _), NDiv(_, _), NFloor(_), NOf(_),
          NLt(_, _), NLe(_, _), NClose(_, _)

(***************************************************************************)
(* Values                                                                    *)
(***************************************************************************)
NoVal == <<>>
Assigned(v) == v # <<>>
Map1(op(_), v) == [j \in DOMAIN v |-> op(v[j])]
VAdd(a, b) == [j \in DOMAIN a |-> NAdd(a[j], b[j])]
VSub(a, b) == [j \in DOMAIN a |-> NSub(a[j], b[j])]
VMul(a, b) == [j \in DOMAIN a |-> NMul(a[j], b[j])]
VDiv(a, b) == [j \in DOMAIN a |-> NDiv(a[j], b[j])]
VScale(k, a) == [j \in DOMAIN a |-> NMul(k, a[j])]
VFill(n, x) == [j \in 1..n |-> x]
VZero(n) == VFill(n, NOf(0))
Same(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : NClose(a[j], b[j])
Truth(v) == NLt(NOf(0), v[1])
OfTruth(x) == <<IF x THEN NOf(1) ELSE NOf(0)>>

(***************************************************************************)
(* Time functions of external inputs and sources; element j of an array gets *)
(* the base value plus (j - 1).                                              *)
(***************************************************************************)
FnBase(fn, t) ==
    CASE fn[1] = "c"   -> fn[2]
      [] fn[1] = "lin" -> NAdd(fn[2], NMul(fn[3], t))
      [] fn[1] = "sq"  -> NAdd(fn[2], NMul(NMul(fn[3], t), t))
      [] fn[1] = "stp" -> IF NLt(t, fn[2]) THEN fn[3] ELSE fn[4]
      [] fn[1] = "pul" -> IF NLe(fn[2], t) /\ NLt(t, fn[3]) THEN NOf(1) ELSE NOf(0)
FnVal(fn, t, ty, n) ==
    LET raw == [j \in 1..n |-> NAdd(FnBase(fn, t), NOf(j - 1))] IN
    CASE ty = "i" -> <<NFloor(raw[1])>>
      [] ty = "b" -> OfTruth(Truth(raw))
      [] OTHER    -> raw

(***************************************************************************)
(* Ports                                                                     *)
(***************************************************************************)
Rng(s) == {s[j] : j \in DOMAIN s}
Port(b, label) == b.i[CHOOSE j \in DOMAIN b.il : b.il[j] = label /\ \A m \in 1..(j - 1) : b.il[m] # label]

\* outputs that are continuous states (assigned before any activation) and the signals that are their derivatives
StateOuts(b) ==
    CASE b.k \in {"integ", "trig"} -> <<b.o[1]>>
      [] b.k = "so2" -> <<b.o[1], b.o[2]>>
      [] OTHER -> <<>>
DerivIns(b) ==
    CASE b.k \in {"integ", "trig"} -> <<b.i[1]>>
      [] b.k = "so2" -> <<b.o[2], b.o[3]>>
      [] OTHER -> <<>>
\* outputs assigned by the activation
ActOuts(b) ==
    CASE b.k \in {"integ", "trig"} -> <<>>
      [] b.k = "so2" -> <<b.o[3]>>
      [] b.k \in {"busmem", "buspipe"} -> <<>>
      [] OTHER -> b.o

\* signals that must be assigned before the block can be activated
Required(b, st) ==
    CASE b.k = "mem" -> {}
      [] b.k = "integ" -> {b.o[1]}
      [] b.k = "trig" -> {b.o[1], Port(b, "trigger")}
      [] b.k = "inival" -> IF st.has THEN {} ELSE {b.i[1]}
      [] b.k = "so2" -> {b.i[1], b.o[1], b.o[2]}
      [] b.k \in {"busmem", "buspipe"} -> {}
      [] OTHER -> Rng(b.i)
\* kinds whose activation does nothing
NoOp(b) == b.k \in {"integ", "trig", "busmem", "buspipe"}
Dynamic(b) == b.k \in {"mem", "delay", "deriv", "integ", "trig", "inival", "so2"}

(***************************************************************************)
(* Remembered state                                                          *)
(***************************************************************************)
InitState(b, szOf(_)) ==
    CASE b.k \in {"mem", "integ"} -> [v |-> b.p]
      [] b.k = "trig" -> [v |-> b.p, lat |-> FALSE]
      [] b.k = "delay" -> [h |-> <<>>]
      [] b.k = "deriv" -> [first |-> TRUE, t |-> NOf(0), x |-> <<>>, y |-> b.p]
      [] b.k = "inival" -> [has |-> FALSE, v |-> <<>>]
      [] b.k = "so2" -> [v |-> <<b.p[1]>>, w |-> <<b.p[2]>>]
      [] OTHER -> [v |-> <<>>]

\* values of the state outputs at the start of a step, and the state after that
StartOuts(b, st) ==
    CASE b.k = "integ" -> <<st.v>>
      [] b.k = "trig" -> <<IF st.lat THEN VZero(Len(st.v)) ELSE st.v>>
      [] b.k = "so2" -> <<st.v, st.w>>
      [] OTHER -> <<>>
StartState(b, st) ==
    CASE b.k = "trig" -> [v |-> StartOuts(b, st)[1], lat |-> FALSE]
      [] OTHER -> st

(***************************************************************************)
(* Recorded history of a delay: a sequence of <<time, value>>, oldest first  *)
(***************************************************************************)
DelayOut(h, tau, initial) ==
    IF h = <<>> \/ NLe(tau, h[1][1]) THEN initial
    ELSE IF NLe(h[Len(h)][1], tau) THEN h[Len(h)][2]
    ELSE LET k == CHOOSE k \in 2..Len(h) : NLe(tau, h[k][1]) /\ NLt(h[k - 1][1], tau)
             dt == NSub(h[k][1], h[k - 1][1])
             w == NSub(tau, h[k - 1][1])
         IN [j \in DOMAIN h[k][2] |->
               NAdd(h[k - 1][2][j], NDiv(NMul(NSub(h[k][2][j], h[k - 1][2][j]), w), dt))]

(***************************************************************************)
(* Outputs of an activation at time t, in the evaluation's signal values cur *)
(***************************************************************************)
RECURSIVE SumIns(_, _, _), MulIns(_, _, _)
SumIns(s, cur, acc) == IF s = <<>> THEN acc ELSE SumIns(Tail(s), cur, VAdd(acc, cur[Head(s)]))
MulIns(s, cur, acc) == IF s = <<>> THEN acc ELSE MulIns(Tail(s), cur, VMul(acc, cur[Head(s)]))

Outputs(b, t, cur, st, szOf(_), tyOf(_)) ==
    LET x == cur[b.i[1]]
        n == szOf(b.o[1]) IN
    CASE b.k = "const" -> <<b.p>>
      [] b.k = "source" -> <<FnVal(b.fn, t, tyOf(b.o[1]), n)>>
      [] b.k = "sources" -> [j \in DOMAIN b.o |-> FnVal(b.fns[j], t, tyOf(b.o[j]), szOf(b.o[j]))]
      [] b.k = "add" -> <<SumIns(b.i, cur, b.p)>>
      [] b.k = "mul" -> <<MulIns(b.i, cur, b.p)>>
      [] b.k = "sub" -> <<VSub(x, cur[b.i[2]])>>
      [] b.k = "div" -> <<VDiv(x, cur[b.i[2]])>>
      [] b.k = "gain" -> <<VScale(b.p[1], x)>>
      [] b.k = "pipe" -> <<x>>
      [] b.k = "siso" -> <<VAdd(VMul(x, x), VFill(n, t))>>
      [] b.k = "sat" -> <<[j \in DOMAIN x |-> IF NLt(NOf(8), x[j]) THEN NOf(8) ELSE IF NLt(x[j], NOf(-8)) THEN NOf(-8) ELSE x[j]]>>
      [] b.k = "sofn" -> <<SumIns(b.i, cur, VFill(n, NMul(b.p[1], t)))>>
      [] b.k = "func" -> LET s == SumIns(b.i, cur, VZero(1))[1] IN
                         [j \in DOMAIN b.o |-> <<NAdd(NMul(NOf(j), s), t)>>]
      [] b.k = "cmp" -> <<OfTruth(NLt(cur[b.i[2]][1], x[1]))>>
      [] b.k = "mem" -> <<st.v>>
      [] b.k = "delay" -> <<DelayOut(st.h, NSub(t, cur[Port(b, "delay")][1]), cur[Port(b, "initial")])>>
      [] b.k = "deriv" -> IF st.first \/ (NLe(t, st.t) /\ NLe(st.t, t)) THEN <<st.y>>
                          ELSE LET in == cur[b.i[1]] IN
                               <<[j \in DOMAIN in |-> NDiv(NSub(in[j], st.x[j]), NSub(t, st.t))]>>
      [] b.k = "inival" -> IF st.has THEN <<st.v>> ELSE <<x>>
      [] b.k = "so2" -> <<VSub(VSub(x, cur[b.o[1]]), cur[b.o[2]])>>
      [] OTHER -> <<>>

\* state after an activation: only an initial-value block notices
ActState(b, cur, st) ==
    IF b.k = "inival" /\ ~st.has THEN [has |-> TRUE, v |-> cur[b.i[1]]] ELSE st

(***************************************************************************)
(* State after an accepted step that ends at time t                          *)
(***************************************************************************)
CommitState(b, t, cur, st) ==
    CASE b.k = "mem" -> IF Assigned(cur[b.i[1]]) THEN [v |-> cur[b.i[1]]] ELSE st
      [] b.k = "integ" -> [v |-> cur[b.o[1]]]
      [] b.k = "trig" -> [v |-> cur[b.o[1]], lat |-> Truth(cur[Port(b, "trigger")])]
      [] b.k = "delay" -> [h |-> Append(st.h, <<t, cur[Port(b, "in")]>>)]
      [] b.k = "deriv" -> [first |-> FALSE, t |-> t, x |-> cur[b.i[1]], y |-> cur[b.o[1]]]
      [] b.k = "so2" -> [v |-> cur[b.o[1]], w |-> cur[b.o[2]]]
      [] OTHER -> st

(***************************************************************************)
(* One evaluation: which blocks can be activated now                         *)
(***************************************************************************)
Ready(b, st, cur) == \A s \in Required(b, st) : Assigned(cur[s])

(***************************************************************************)
(* Buses: a bus is a sequence of elements [l |-> label, t |-> "s" or "b",    *)
(* id |-> signal or bus].  The leaves of a bus are its value signals with    *)
(* their label paths, nested buses included.                                 *)
(***************************************************************************)
RECURSIVE Leaves(_, _, _, _), LeavesFrom(_, _, _, _, _)
Leaves(buses, id, path, ex) ==
    IF \E e \in ex : e.t = "b" /\ e.p = path /\ path # <<>> THEN <<>>
    ELSE LeavesFrom(buses, buses[id].els, 1, path, ex)
LeavesFrom(buses, els, k, path, ex) ==
    IF k > Len(els) THEN <<>>
    ELSE LET e == els[k]
             p == Append(path, e.l)
             here == IF e.t = "b" THEN Leaves(buses, e.id, p, ex)
                     ELSE IF \E x \in ex : x.t = "s" /\ x.p = p THEN <<>> ELSE <<[p |-> p, s |-> e.id]>>
         IN here \o LeavesFrom(buses, els, k + 1, path, ex)
RECURSIVE LookupPath(_, _, _)
LookupPath(buses, id, path) ==
    LET els == buses[id].els
        hit == {k \in DOMAIN els : els[k].l = path[1]} IN
    IF hit = {} THEN 0
    ELSE LET k == CHOOSE k \in hit : \A m \in hit : k <= m IN
         IF Len(path) = 1 THEN (IF els[k].t = "s" THEN els[k].id ELSE 0)
         ELSE IF els[k].t = "b" THEN LookupPath(buses, els[k].id, Tail(path)) ELSE 0

\* the per-signal blocks a bus block stands for
BusParts(b, buses, szOf(_), tyOf(_)) ==
    LET lv == Leaves(buses, b.bi, <<>>, Rng(b.ex))
        ivOf(p) == {j \in DOMAIN b.iv : b.iv[j].p = p}
    IN [k \in DOMAIN lv |->
          [k |-> IF b.k = "busmem" THEN "mem" ELSE "pipe",
           ty |-> tyOf(lv[k].s),
           p |-> IF b.k = "busmem"
                 THEN IF ivOf(lv[k].p) = {} THEN VZero(szOf(lv[k].s)) ELSE b.iv[CHOOSE j \in ivOf(lv[k].p) : TRUE].v
                 ELSE <<>>,
           i |-> <<LookupPath(buses, b.bi, lv[k].p)>>, il |-> <<>>, o |-> <<LookupPath(buses, b.bo, lv[k].p)>>]]
\* initial values that match no signal
UnusedInit(b, buses) ==
    LET lv == Leaves(buses, b.bi, <<>>, Rng(b.ex)) IN
    {j \in DOMAIN b.iv : \A k \in DOMAIN lv : lv[k].p # b.iv[j].p}
=============================================================================
