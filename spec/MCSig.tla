------------------------------- MODULE MCSig -------------------------------
(***************************************************************************)
(* All short histories of signal and handle operations (C19, C20).           *)
(***************************************************************************)
EXTENDS PooyaSig, TLC, Json
CONSTANTS Handles, MaxObj, Types, Vals, Emit, MaxLen

VARIABLES st, hist
vars == <<st, hist>>
HT(h) == st.hd[h].ty
OpSet ==
    {[op |-> "new", h |-> h, ty |-> t, sz |-> IF t = "a" THEN 2 ELSE 1] : h \in Handles, t \in Types}
    \cup {[op |-> "copy", h |-> h, from |-> f] : h \in Handles, f \in Handles}
    \cup {[op |-> "make", h |-> h, from |-> f, ty |-> t, via |-> v] : h \in Handles, f \in Handles, t \in Types \cup {"g"}, v \in {"impl", "sig"}}
    \cup {[op |-> "reset", h |-> h, from |-> f] : h \in Handles, f \in Handles}
    \cup {[op |-> "drop", h |-> h] : h \in Handles}
    \cup {[op |-> "set", h |-> h, v |-> v] : h \in Handles, v \in {<<x>> : x \in Vals} \cup {<<x, x>> : x \in Vals}}
    \cup {[op |-> "asg", h |-> h, from |-> f] : h \in Handles, f \in Handles}
    \cup {[op |-> "get", h |-> h] : h \in Handles}
    \cup {[op |-> "clear", h |-> h] : h \in Handles}
\* one-element values for scalars, the others for arrays: the interface of a scalar takes no others
Sensible(op) == op.op = "set" => (HT(op.h) = "a" \/ Len(op.v) = 1)
Enabled(op) == CanDo(st, op) /\ Sensible(op) /\ (op.op = "new" => Len(st.obj) < MaxObj)

Init == st = Init0 /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in OpSet : /\ Enabled(op)
                             /\ st' = Do(st, op).st
                             /\ hist' = Append(hist, op)
                             /\ (Emit => PrintT(<<"GEN", ToJson(hist')>>))
Spec == Init /\ [][Next]_vars
View == <<st, Len(hist)>>

HandlesTyped == Typed(st)
\* what any operation does in any state
EveryOp == \A op \in OpSet : Enabled(op) =>
    LET r == Do(st, op)
        same(i) == r.st.obj[i] = st.obj[i]
    IN /\ r.ok = 0 => r.st = st
       \* at most one signal changes, and only the one the operation is about
       /\ \A i \in DOMAIN st.obj : same(i) \/ (op.op \in {"set", "asg", "clear"} /\ st.hd[op.h].id = i)
       \* an assigned value stays until the signal is cleared
       /\ \A i \in DOMAIN st.obj : (st.obj[i].asg /\ ~same(i)) => op.op = "clear"
       /\ op.op = "get" => (r.ok = 1 <=> st.obj[st.hd[op.h].id].asg)
       /\ op.op \in {"asg", "set", "get", "clear"} => r.st.hd = st.hd
       /\ op.op \in {"copy", "make", "reset"} => (r.st.obj = st.obj /\ (r.ok = 1 => r.st.hd[op.h].id = st.hd[op.from].id))
       /\ op.op = "drop" => \A h \in DOMAIN r.st.hd : r.st.hd[h] = st.hd[h] /\ h # op.h
AliasesAgree == \A h \in DOMAIN st.hd : \A k \in DOMAIN st.hd : st.hd[h].id = st.hd[k].id =>
    Do(st, [op |-> "get", h |-> h]) = Do(st, [op |-> "get", h |-> k])
=============================================================================
