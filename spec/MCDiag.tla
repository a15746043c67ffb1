------------------------------- MODULE MCDiag -------------------------------
(***************************************************************************)
(* The call trace under operations that nest, return and fail anywhere, with *)
(* callers (user code called by the library) that may catch errors and go on *)
(* (C25).                                                                    *)
(***************************************************************************)
EXTENDS PooyaDiag, TLC
CONSTANTS Depth
\* operations: 1..3 are the process operations of the nested blocks root(1) > sub(2) > leaf(3), 4 a run, 5 a signal access
Parent == <<0, 1, 2>>
VARIABLES stack,    \* the call trace
          ctl,      \* operations really in progress, outermost first; each with the depth at which it was entered
          err,      \* <<>> or the trace an error in flight carries
          rep       \* the error the caller outside the library received last
vars == <<stack, ctl, err, rep>>
Init == stack = <<>> /\ ctl = <<>> /\ err = <<>> /\ rep = <<>>
MayCall(f, g) == CASE f = 0 -> g \in {4, 5} [] f = 4 -> g \in {1, 5} [] f \in {1, 2} -> g = f + 1 [] f = 3 -> g \in {5, 4} [] f = 5 -> FALSE
Top == IF ctl = <<>> THEN 0 ELSE ctl[Len(ctl)]
Enter == /\ err = <<>> /\ Len(ctl) < Depth
         /\ \E g \in 1..5 : MayCall(Top, g) /\ ctl' = Append(ctl, g) /\ stack' = Push(stack, g)
         /\ UNCHANGED <<err, rep>>
Leave == ctl # <<>> /\ err = <<>> /\ ctl' = Pop(ctl) /\ stack' = Pop(stack) /\ UNCHANGED <<err, rep>>
Raise == ctl # <<>> /\ err = <<>> /\ err' = ErrorTrace(stack) /\ UNCHANGED <<stack, ctl, rep>>
Unwind == /\ err # <<>> /\ ctl' = Pop(ctl) /\ stack' = Pop(stack)
          /\ IF ctl' = <<>> THEN err' = <<>> /\ rep' = err ELSE UNCHANGED <<err, rep>>
\* user code called from a leaf catches the error of an operation it called
Catch == err # <<>> /\ Top = 3 /\ err' = <<>> /\ UNCHANGED <<stack, ctl, rep>>
Next == Enter \/ Leave \/ Raise \/ Unwind \/ Catch
Spec == Init /\ [][Next]_vars
Balanced == stack = ctl
EmptyOutside == ctl = <<>> => stack = <<>> /\ err = <<>>
IsBlock(x) == x <= 3
ReportGood == rep # <<>> =>
    LET p == SelectSeq(rep, IsBlock) IN
    /\ rep[Len(rep)] \in {4, 5}
    \* nested runs aside, the trace names the failing block and then the blocks around it
    /\ Cardinality({k \in DOMAIN rep : rep[k] = 4}) = 1 => Chain(p, Parent) /\ (3 \in {p[k] : k \in DOMAIN p} => NamesFailing(p, 3))
=============================================================================
