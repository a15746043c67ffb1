------------------------------- MODULE MCName -------------------------------
(***************************************************************************)
(* Small hierarchies under renaming and re-parenting (C22).                  *)
(***************************************************************************)
EXTENDS PooyaName, TLC, Json
CONSTANTS MaxBlk, MaxLen, Emit
Names == {<<>>, <<97>>, <<98, 47>>, <<46, 200>>}
VARIABLES st, hist
vars == <<st, hist>>
Subs == {b \in DOMAIN st.blk : st.blk[b].leaf = 0}
OpSet == (IF Len(st.blk) < MaxBlk THEN {[op |-> "blk", par |-> p, leaf |-> f, nm |-> n] : p \in {0} \cup Subs, f \in {0, 1}, n \in Names} ELSE {})
         \cup {[op |-> "setp", b |-> b, par |-> p] : b \in DOMAIN st.blk, p \in Subs}
         \cup {[op |-> "ren", b |-> b, nm |-> n] : b \in DOMAIN st.blk, n \in Names}
Init == st = Init0 /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in OpSet : /\ st' = Do(st, op).st /\ hist' = Append(hist, op)
                             /\ (Emit => PrintT(<<"GEN", ToJson(hist')>>))
Spec == Init /\ [][Next]_vars
View == st
AllLegal == \A b \in DOMAIN st.blk : \A k \in DOMAIN st.blk[b].nm : Legal(st.blk[b].nm[k])
\* a full name has as many slashes as the block has ancestors, itself included, and ends with the block's own name
Count(n) == Cardinality({k \in DOMAIN n : n[k] = Slash})
Paths == \A b \in DOMAIN st.blk : LET f == FullName(st, b) n == st.blk[b].nm IN
    /\ Count(f) = Cardinality(Above(st, b)) /\ f[1] = Slash
    /\ SubSeq(f, Len(f) - Len(n), Len(f)) = <<Slash>> \o n
    /\ st.blk[b].par # 0 => SubSeq(f, 1, Len(FullName(st, st.blk[b].par))) = FullName(st, st.blk[b].par)
Idempotent == \A n \in Names : Emend(Emend(n)) = Emend(n) /\ Len(Emend(n)) = Len(n)
=============================================================================
