------------------------------- MODULE MCRun -------------------------------
(***************************************************************************)
(* The control of runs (PooyaRun) with a stepper that may reply anything     *)
(* (C12, C13, C14).  `hist` records the replies, so that every transition of *)
(* the control can be replayed on the real simulators; it is not part of the *)
(* state that is compared (VIEW).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MN, MX, Targets, Replies, Emit
RepliesDef == {-1, 0, 1, 2, 3, 4, 5, 9}
IAdd(a, b) == a + b
ISub(a, b) == a - b
ILt(a, b) == a < b
ILe(a, b) == a <= b
INSTANCE PooyaRun WITH RAdd <- IAdd, RSub <- ISub, RLt <- ILt, RLe <- ILe

VARIABLES c, tgt, run, acc, hist, calls
vars == <<c, tgt, run, acc, hist, calls>>
Init == /\ tgt \in Targets /\ run = 1 /\ c = StartRun(0, tgt, MX) /\ acc = 0 /\ hist = <<>> /\ calls = <<tgt>>
Reply == /\ ~RunDone(c, tgt)
         /\ \E nh \in Replies :
              /\ c' = AfterReply(c, nh, MN, MX, tgt)
              /\ acc' = IF Accept(c, nh, MN) THEN c.t2 ELSE acc
              /\ hist' = IF Emit THEN Append(hist, nh) ELSE hist
         /\ UNCHANGED <<tgt, run, calls>>
\* a second run, to a later time
Again == /\ RunDone(c, tgt) /\ run = 1
         /\ \E d \in Targets : tgt' = tgt + d /\ c' = StartRun(tgt, tgt + d, MX) /\ calls' = Append(calls, tgt + d)
         /\ run' = 2 /\ UNCHANGED <<acc, hist>>
Next == Reply \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<c, tgt, run, acc, calls>>

Within == /\ c.t1 <= c.t2 /\ c.t2 <= tgt /\ c.t2 - c.t1 <= MX /\ acc <= c.t1
          /\ (~RunDone(c, tgt) => c.t2 > c.t1)
Contiguous == c.t1 = acc
ShortOnlyAtEnd == ~RunDone(c, tgt) => (c.t2 - c.t1 >= MN \/ c.t2 = tgt)
EndsAtTarget == RunDone(c, tgt) => c.t1 = tgt
ForcedIsAccepted == [][(c.force /\ run' = run) => acc' = c.t2]_vars
RejectedKeepsStart == [][(acc' = acc /\ run' = run) => c'.t1 = c.t1 /\ c'.t2 < c.t2]_vars
Terminates == <>(run = 2 /\ RunDone(c, tgt))

\* behaviours for the conformance runs, one for every transition of the control
Emitted == [][ (Emit /\ hist' # hist) => PrintT(<<"GEN", ToJson([sug |-> hist', runs |-> calls', mn |-> MN, mx |-> MX])>>) ]_vars
=============================================================================
