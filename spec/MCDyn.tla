------------------------------- MODULE MCDyn -------------------------------
(***************************************************************************)
(* Blocks that remember, against the history they are defined by (C05, C06,  *)
(* C07, C10, C13).  A signal x takes any value at any (trial or accepted)    *)
(* evaluation; `hist` records the accepted ones.  The delay is modelled      *)
(* twice: with the whole record (PooyaBlocks) and with a buffer from which   *)
(* expired samples are discarded, as an implementation must do to run        *)
(* forever; both must show the same output for every delay within the        *)
(* lifespan.  Numbers are integers, chosen so that every division is exact   *)
(* (which is asserted).                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals, Steps, Life, Delays, Depth, KeepOne
NumOf(n) == n
NumAdd(a, b) == a + b
NumSub(a, b) == a - b
NumMul(a, b) == a * b
NumDiv(a, b) == IF a % (IF b < 0 THEN -b ELSE b) = 0 THEN (IF b < 0 THEN (-a) \div (-b) ELSE a \div b) ELSE Assert(FALSE, <<"inexact", a, b>>)
NumFloor(a) == a
NumLt(a, b) == a < b
NumLe(a, b) == a <= b
NumEq(a, b) == a = b
INSTANCE PooyaBlocks WITH NAdd <- NumAdd, NSub <- NumSub, NMul <- NumMul, NDiv <- NumDiv, NFloor <- NumFloor,
                          NOf <- NumOf, NLt <- NumLt, NLe <- NumLe, NClose <- NumEq
\* signals: 1 x, 2 delay, 3 initial, 4.. outputs
One(s) == 1
Sca(s) == "s"
Mem == [k |-> "mem", p |-> <<NumOf(7)>>, i |-> <<1>>, il |-> <<>>, o |-> <<4>>]
Del == [k |-> "delay", p |-> <<NumOf(Life)>>, i |-> <<1, 2, 3>>, il |-> <<"in", "delay", "initial">>, o |-> <<4>>]
Der == [k |-> "deriv", p |-> <<NumOf(5)>>, i |-> <<1>>, il |-> <<>>, o |-> <<4>>]
Ini == [k |-> "inival", p |-> <<>>, i |-> <<1>>, il |-> <<>>, o |-> <<4>>]

VARIABLES now, hist, st, buf, seen, out, trial
vars == <<now, hist, st, buf, seen, out, trial>>
RInit(b) == InitState(b, One)

\* the buffer of an implementation that forgets: drop what is older than the lifespan, but keep the last expired sample
Prune(b, t) ==
    LET old == {j \in DOMAIN b : NumLt(b[j][1], NumOf(t - Life))}
        drop == IF KeepOne THEN Cardinality(old) - 1 ELSE Cardinality(old)
    IN IF drop <= 0 THEN b ELSE SubSeq(b, drop + 1, Len(b))

Cur(x, d) == << <<NumOf(x)>>, <<NumOf(d)>>, <<NumOf(99)>>, <<>> >>
DelayVal(h, t, d) == DelayOut(h, NumOf(t - d), <<NumOf(99)>>)

Init == now = 0 /\ hist = <<>> /\ st = [mem |-> RInit(Mem), del |-> RInit(Del), der |-> RInit(Der), ini |-> RInit(Ini)]
        /\ buf = <<>> /\ seen = <<>> /\ out = [mem |-> <<>>, der |-> <<>>, ini |-> <<>>, del |-> <<>>, x |-> 0, t |-> 0] /\ trial = 0

Evaluate(t, x) ==
    out' = [mem |-> Outputs(Mem, NumOf(t), Cur(x, 0), st.mem, One, Sca)[1],
            der |-> Outputs(Der, NumOf(t), Cur(x, 0), st.der, One, Sca)[1],
            ini |-> Outputs(Ini, NumOf(t), Cur(x, 0), st.ini, One, Sca)[1],
            del |-> [d \in Delays |-> Outputs(Del, NumOf(t), Cur(x, d), st.del, One, Sca)[1]],
            x |-> x, t |-> t]
\* a trial evaluation changes nothing but what an initial-value block has seen
Trial == /\ trial < 1 /\ trial' = trial + 1
         /\ \E dt \in Steps \cup {0}, x \in Vals :
              /\ hist # <<>> \/ dt > 0
              /\ Evaluate(now + dt, x)
              /\ st' = [st EXCEPT !.ini = ActState(Ini, Cur(x, 0), st.ini)]
              /\ seen' = IF seen = <<>> THEN <<x>> ELSE seen
         /\ UNCHANGED <<now, hist, buf>>
Accept == /\ Len(hist) < Depth /\ trial' = 0
          /\ \E dt \in Steps, x \in Vals :
               LET t == now + dt
                   o == Outputs(Der, NumOf(t), Cur(x, 0), st.der, One, Sca)[1]
                   cc == [Cur(x, 0) EXCEPT ![4] = o]
               IN /\ Evaluate(t, x) /\ now' = t /\ hist' = Append(hist, [t |-> t, x |-> x, dy |-> o])
                  /\ st' = [mem |-> CommitState(Mem, NumOf(t), cc, st.mem), del |-> CommitState(Del, NumOf(t), cc, st.del),
                            der |-> CommitState(Der, NumOf(t), cc, st.der), ini |-> ActState(Ini, cc, st.ini)]
                  /\ buf' = Append(Prune(buf, t), <<NumOf(t), <<NumOf(x)>> >>)
                  /\ seen' = IF seen = <<>> THEN <<x>> ELSE seen
Next == Trial \/ Accept
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What each block must show, from the history before the evaluation         *)
(***************************************************************************)
Last == hist[Len(hist)]
\* an independent definition of the delayed value: the piecewise linear curve through the accepted points
Curve(tau) ==
    IF hist = <<>> \/ tau <= hist[1].t THEN NumOf(99)
    ELSE IF tau >= Last.t THEN NumOf(Last.x)
    ELSE LET k == CHOOSE k \in 1..(Len(hist) - 1) : hist[k].t < tau /\ tau <= hist[k + 1].t
             num == hist[k].x * (hist[k + 1].t - tau) + hist[k + 1].x * (tau - hist[k].t)
         IN NumDiv(NumOf(num), NumOf(hist[k + 1].t - hist[k].t))
MemoryIsLast == [][out' # out => out'.mem = <<IF hist = <<>> THEN NumOf(7) ELSE NumOf(Last.x)>>]_vars
DelayIsCurve == [][out' # out => \A d \in Delays : out'.del[d] = <<Curve(out'.t - d)>>]_vars
DerivIsQuotient == [][out' # out => out'.der = <<IF hist = <<>> THEN NumOf(5)
                                               ELSE IF out'.t = Last.t THEN Last.dy[1]
                                               ELSE NumDiv(NumOf(out'.x - Last.x), NumOf(out'.t - Last.t))>>]_vars
InitialIsFirst == [][out' # out => out'.ini = <<NumOf(seen'[1])>>]_vars
\* forgetting is invisible, at the last accepted time and at any later time
ForgettingInvisible == \A d \in Delays, dt \in Steps \cup {0} : DelayVal(buf, now + dt, d) = DelayVal(st.del.h, now + dt, d)
=============================================================================
