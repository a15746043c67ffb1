------------------------------- MODULE MCTree -------------------------------
(***************************************************************************)
(* All ways to build a small hierarchy, and all visits of it (C23).          *)
(***************************************************************************)
EXTENDS PooyaTree, TLC, Json
CONSTANTS MaxBlk, Emit
VARIABLES st, hist
vars == <<st, hist>>
Subs == {b \in Blocks(st) : st.leaf[b] = 0}
OpSet == (IF Len(st.par) < MaxBlk THEN {[op |-> "mk", par |-> p, leaf |-> f] : p \in {0} \cup Subs, f \in {0, 1}} ELSE {})
         \cup {[op |-> o, b |-> b, p |-> p] : o \in {"setp", "add", "link"}, b \in Blocks(st), p \in Subs}
Visits == {[op |-> "visit", b |-> b, lvl |-> l, max |-> m, stop |-> s, c |-> 0] : b \in Blocks(st), l \in {0, 1}, m \in {-1, 0, 1, 2}, s \in 0..3}
Init == st = Init0 /\ hist = <<>>
Next == \E op \in OpSet : /\ st' = Do(st, op).st /\ hist' = Append(hist, op)
                          /\ (Emit => PrintT(<<"GEN", ToJson(hist')>>))
Spec == Init /\ [][Next]_vars
View == st
Acyclic == \A b \in Blocks(st) : b \notin Above(st, st.par[b])
Consistent == \A b \in Blocks(st) : \A p \in Blocks(st) : (st.par[b] = p <=> Has(st.kids[p], b))
NoDuplicates == \A p \in Blocks(st) : \A i \in DOMAIN st.kids[p] : \A j \in DOMAIN st.kids[p] : st.kids[p][i] = st.kids[p][j] => i = j
RefusedChangesNothing == \A op \in OpSet : Do(st, op).r \in {"F"} => Do(st, op).st = st
AgainChangesNothing == \A op \in OpSet : op.op = "setp" /\ st.par[op.b] = op.p => Do(st, op).st = st
\* a visit reaches exactly the descendants within the level, each once, parents first
VisitsComplete == \A b \in Blocks(st) :
    LET v == Visit(st, b, 0, -1) IN
    /\ {v[k][1] : k \in DOMAIN v} = {x \in Blocks(st) : b \in Above(st, x)}
    /\ Len(v) = Cardinality({x \in Blocks(st) : b \in Above(st, x)})
    /\ \A k \in DOMAIN v : k > 1 => \E j \in 1..(k - 1) : v[j][1] = st.par[v[k][1]] /\ v[j][2] = v[k][2] - 1
    /\ \A m \in 0..2 : Visit(st, b, 0, m) = SelectSeq(v, LAMBDA x : x[2] <= m)
ParentsStay == [][\A b \in Blocks(st) : st.par[b] # 0 => st'.par[b] = st.par[b]]_vars
=============================================================================
