------------------------------- MODULE MCPar -------------------------------
(***************************************************************************)
(* All interleavings of small independent simulations.  `sched` records who  *)
(* took each turn: the schedules that the conformance runs give to real      *)
(* simulations.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Short, SharedScratch, SharedStack, Emit
Sims == 1..N
Cells == {1, 2}
\* different programs: they fail, or take two steps, and have different cells and frames
Step(k) == <<[op |-> "load", c |-> 1], [op |-> "work"], [op |-> "store", c |-> 2]>>
Prog(k) == IF Short THEN Step(k)
           ELSE <<[op |-> "enter", f |-> k]>> \o Step(k)
                \o (IF k % 2 = 0 THEN <<[op |-> "fail"]>> ELSE <<[op |-> "load", c |-> 2], [op |-> "store", c |-> 1], [op |-> "leave"]>>)
ScrOf(k) == IF SharedScratch THEN 1 ELSE k
StkOf(k) == IF SharedStack THEN 1 ELSE k
F(x) == 2 * x + 1
INSTANCE PooyaPar

VARIABLES s, sched
vars == <<s, sched>>
S0 == [pc |-> [k \in Sims |-> 0], cell |-> [k \in Sims |-> [c \in Cells |-> 10 * k + c]], scr |-> [k \in Sims |-> 0],
       stk |-> [k \in Sims |-> <<>>], log |-> [k \in Sims |-> <<>>]]
Init == s = S0 /\ sched = <<>>
Next == \E k \in Sims :
    /\ ~Done(s, k)
    /\ s' = Op(s, k) /\ sched' = IF Emit THEN Append(sched, k - 1) ELSE sched
    /\ ((Emit /\ \A j \in Sims : Done(s', j)) => PrintT(<<"GEN", ToJson(sched')>>))
Spec == Init /\ [][Next]_vars /\ \A k \in Sims : WF_vars(\E j \in {k} : ~Done(s, j) /\ s' = Op(s, j) /\ UNCHANGED sched)

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* what a simulation shows is what it shows alone
AsAlone == \A k \in Sims : LET a == Alone(S0, k) IN
    /\ IsPrefix(s.log[k], a.log[k])
    /\ Done(s, k) => s.log[k] = a.log[k] /\ s.cell[k] = a.cell[k]
\* the stack holds frames of the simulation only, and none when it is done
OwnFrames == \A k \in Sims : /\ \A i \in DOMAIN s.stk[k] : s.stk[k][i] = k
                             /\ (Done(s, k) => s.stk[k] = <<>>)
AllDone == <>(\A k \in Sims : Done(s, k))
=============================================================================
