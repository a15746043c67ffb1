------------------------------ MODULE PooyaRun ------------------------------
(***************************************************************************)
(* The control of a run: which step is tried next, and whether a tried step  *)
(* is accepted.  c = [t1, t2, force] is the control state: the next attempt  *)
(* goes from t1 to t2, and is accepted regardless if force is set.           *)
(***************************************************************************)
CONSTANTS RAdd(_, _), RSub(_, _), RLt(_, _), RLe(_, _)

RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
Clamp(h, mn, mx) == RMax(mn, RMin(h, mx))

StartRun(tprev, tgt, mx) == [t1 |-> tprev, t2 |-> RMin(RAdd(tprev, mx), tgt), force |-> FALSE]

\* the stepper's reply nh to the attempt c
Accept(c, nh, mn) ==
    LET h == RSub(c.t2, c.t1) IN c.force \/ RLe(h, nh) \/ RLe(h, mn)
AfterReply(c, nh, mn, mx, tgt) ==
    IF Accept(c, nh, mn)
    THEN [t1 |-> c.t2, t2 |-> RMin(RAdd(c.t2, Clamp(nh, mn, mx)), tgt), force |-> FALSE]
    ELSE [t1 |-> c.t1, t2 |-> RAdd(c.t1, Clamp(nh, mn, mx)), force |-> RLe(nh, mn)]
RunDone(c, tgt) == ~RLt(c.t1, tgt)
=============================================================================
