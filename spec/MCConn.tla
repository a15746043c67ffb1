------------------------------- MODULE MCConn -------------------------------
(***************************************************************************)
(* All attempts to connect blocks of any declared numbers of ports (C24).    *)
(***************************************************************************)
EXTENDS PooyaConn, TLC, Json
CONSTANTS MaxSig, Emit
VARIABLES st, hist
vars == <<st, hist>>
\* two value signals and a bus
Objs == <<[op |-> "sig", ty |-> "s"], [op |-> "sig", ty |-> "s"], [op |-> "bus", of |-> <<1, 2>>]>>
Seqs == UNION {[1..k -> 1..3] : k \in 0..MaxSig}
Start == <<>>
Init == \E ni \in -1..2, no \in -1..2, late \in {0, 1} :
    LET b == [op |-> "blk", k |-> "plain", ni |-> ni, no |-> no, late |-> late]
    IN hist = Append(Objs, b) /\ st = Do(Do(Do(Do(Init0, Objs[1]).st, Objs[2]).st, Objs[3]).st, b).st
Conns == {[op |-> o, b |-> 1, i |-> i, o |-> ou] : o \in {"connect", "addb"}, i \in Seqs, ou \in Seqs}
Next == /\ Len(hist) < 6
        /\ \E op \in Conns : /\ st' = Do(st, op).st /\ hist' = Append(hist, op)
                             /\ (Emit => PrintT(<<"GEN", ToJson(hist')>>))
Spec == Init /\ [][Next]_vars
View == st
CountsMatch == \A b \in DOMAIN st.blk : st.blk[b].con = 1 => Fits(st.blk[b].ni, Len(st.blk[b].i)) /\ Fits(st.blk[b].no, Len(st.blk[b].o))
NoBusRecorded == \A b \in DOMAIN st.blk : \A x \in Links(st, b) : st.obj[x[1]] = "v" /\ x[2] + x[3] >= 1
OncePerSignal == \A b \in DOMAIN st.blk : \A x \in Links(st, b) : \A y \in Links(st, b) : x[1] = y[1] => x = y
ConnectedStays == [][\A b \in DOMAIN st.blk : st.blk[b].con = 1 => st'.blk[b] = st.blk[b]]_vars
RefusedChangesNothing == \A op \in Conns : Do(st, op).ok = 0 => Do(st, op).st = st
=============================================================================
