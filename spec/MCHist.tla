------------------------------- MODULE MCHist -------------------------------
(***************************************************************************)
(* All short histories (C17, C18).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRows, Grow, MaxLen, Emit
INSTANCE PooyaHist WITH Zero <- "0"
VARIABLES st, hist
vars == <<st, hist>>
Objs == <<[op |-> "sig", ty |-> "s", sz |-> 1, nm |-> "p"], [op |-> "sig", ty |-> "a", sz |-> 2, nm |-> "q"], [op |-> "bus"]>>
OpSet == {[op |-> o, s |-> s] : o \in {"track", "untrack"}, s \in 1..3}
         \cup {[op |-> "set", s |-> 1, v |-> v] : v \in {<<"1">>, <<"2">>}} \cup {[op |-> "set", s |-> 2, v |-> <<"3", "4">>]}
         \cup {[op |-> "clear", s |-> 1]}
         \cup {[op |-> "upd", k |-> k, t |-> t] : k \in 0..(MaxRows - 1), t \in {"0.5", "1"}}
         \cup {[op |-> "shrink"]}
Init == \E g \in Grow :
    LET n == [op |-> "new", grow |-> g]
    IN hist = Append(Objs, n) /\ st = Do(Do(Do(Do(Init0, Objs[1]).st, Objs[2]).st, Objs[3]).st, n).st
Next == /\ Len(hist) < MaxLen
        /\ \E op \in OpSet : /\ CanDo(st, op) /\ st' = Do(st, op).st /\ hist' = Append(hist, op)
                             /\ (Emit => PrintT(<<"GEN", ToJson(hist')>>))
Spec == Init /\ [][Next]_vars
View == <<st, Len(hist), hist[4]>>
TrackedOnce == \A i \in DOMAIN st.trk : \A j \in DOMAIN st.trk : st.trk[i] = st.trk[j] => i = j
OnlyValues == \A i \in DOMAIN st.trk : st.obj[st.trk[i]].ty # "B"
RowShape == \A k \in DOMAIN st.rows : Len(st.rows[k].v) = Len(st.trk) /\ \A j \in DOMAIN st.trk : Len(st.rows[k].v[j]) = st.obj[st.trk[j]].sz
\* an update touches only its own row, everything else no row at all
RowsKept == \A op \in OpSet : CanDo(st, op) =>
    LET r == Do(st, op) IN
    /\ \A k \in DOMAIN st.rows : (op.op = "upd" /\ op.k + 1 = k) \/ r.st.rows[k] = st.rows[k]
    /\ Len(r.st.rows) = IF op.op = "upd" /\ st.trk # <<>> /\ op.k = Len(st.rows) THEN Len(st.rows) + 1 ELSE Len(st.rows)
    /\ r.ok = 0 => r.st = st
    /\ (Begun(st) => r.st.trk = st.trk)
=============================================================================
