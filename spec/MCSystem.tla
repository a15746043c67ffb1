------------------------------ MODULE MCSystem ------------------------------
(***************************************************************************)
(* A whole simulation: the blocks of PooyaBlocks driven by the run control   *)
(* of PooyaRun, with a stepper and an environment that may do anything.      *)
(* The model under simulation:                                               *)
(*   u   external input      g   external trigger (boolean)                  *)
(*   x = integral of u       q = integral of u, restarted by g               *)
(*   m = memory of u         i = initial value of u     w = x + m            *)
(* What the properties promise is stated over ghost variables that record    *)
(* the accepted steps only (C05, C08, C09, C10, C12, C13, C14, C27).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MN, MX, Targets, Replies, Vals, MaxOps, MaxTries

IAdd(a, b) == a + b
ISub(a, b) == a - b
IMul(a, b) == a * b
IDiv(a, b) == a \div b
IId(a) == a
ILt(a, b) == a < b
ILe(a, b) == a <= b
IEq(a, b) == a = b
INSTANCE PooyaBlocks WITH NAdd <- IAdd, NSub <- ISub, NMul <- IMul, NDiv <- IDiv, NFloor <- IId, NOf <- IId,
                          NLt <- ILt, NLe <- ILe, NClose <- IEq
INSTANCE PooyaRun WITH RAdd <- IAdd, RSub <- ISub, RLt <- ILt, RLe <- ILe

\* signals: 1 u, 2 g, 3 x, 4 q, 5 m, 6 i, 7 w
B == << [k |-> "integ", ty |-> "s", p |-> <<3>>, i |-> <<1>>, il |-> <<>>, o |-> <<3>>],
        [k |-> "trig", ty |-> "s", p |-> <<2>>, i |-> <<1, 2>>, il |-> <<"in", "trigger">>, o |-> <<4>>],
        [k |-> "mem", ty |-> "s", p |-> <<7>>, i |-> <<1>>, il |-> <<>>, o |-> <<5>>],
        [k |-> "inival", ty |-> "s", p |-> <<>>, i |-> <<1>>, il |-> <<>>, o |-> <<6>>],
        [k |-> "add", ty |-> "s", p |-> <<0>>, i |-> <<3, 5>>, il |-> <<>>, o |-> <<7>>] >>
Blk == DOMAIN B
One(s) == 1
Sca(s) == "s"

VARIABLES st,      \* what the blocks remember
          cur,     \* signal values of the last evaluation
          phase, inited, tprev, tgt, c, v0, v1,
          ops, tries,
          \* ghosts
          acc,     \* the last accepted step: [t, u, g, x, q] or none
          first,   \* the first value of u seen by an evaluation, or none
          at,      \* time of the last evaluation
          old      \* the state vector the first attempt of the current step started from
vars == <<st, cur, phase, inited, tprev, tgt, c, v0, v1, ops, tries, acc, first, at, old>>

None == [t |-> 0, u |-> -1, g |-> -1, x |-> -1, q |-> -1]
Blank == [s \in 1..7 |-> NoVal]

\* an evaluation with inputs u and g and state values x and q: everything that can run, runs
Eval(state, u, g, x, q, t) ==
    LET c0 == [Blank EXCEPT ![1] = <<u>>, ![2] = <<g>>, ![3] = <<x>>, ![4] = <<q>>]
        RECURSIVE Go(_, _, _)
        Go(cc, ss, done) ==
            LET can == {k \in Blk \ done : ~NoOp(B[k]) /\ Ready(B[k], ss[k], cc)} IN
            IF can = {} THEN [cur |-> cc, st |-> ss, done |-> done]
            ELSE LET k == CHOOSE k \in can : TRUE
                     o == Outputs(B[k], t, cc, ss[k], One, Sca)
                 IN Go([cc EXCEPT ![B[k].o[1]] = o[1]], [ss EXCEPT ![k] = ActState(B[k], cc, ss[k])], done \cup {k})
    IN Go(c0, state, {})

\* begin-of-step: the states the integrators show
Started(state) == [k \in Blk |-> StartState(B[k], state[k])]
X0(state) == StartOuts(B[1], state[1])[1][1]
Q0(state) == StartOuts(B[2], state[2])[1][1]
Committed(state, cc, t) == [k \in Blk |-> CommitState(B[k], t, cc, state[k])]
Accepted(cc, t) == [t |-> t, u |-> cc[1][1], g |-> cc[2][1], x |-> cc[3][1], q |-> cc[4][1]]

Init == /\ st = [k \in Blk |-> InitState(B[k], One)] /\ cur = Blank
        /\ phase = "idle" /\ inited = FALSE /\ tprev = 0 /\ tgt = 0
        /\ c = [t1 |-> 0, t2 |-> 0, force |-> FALSE] /\ v0 = <<>> /\ v1 = <<>> /\ ops = 0 /\ tries = 0
        /\ acc = None /\ first = -1 /\ at = 0 /\ old = <<>>

See(u) == first' = IF first = -1 THEN u ELSE first

\* init (explicitly, or by the first run), at any time: one full evaluation, committed
DoInit(t) ==
    \E u \in Vals, g \in {0, 1} :
      LET s1 == Started(st)
          e == Eval(s1, u, g, X0(st), Q0(st), t)
      IN /\ st' = Committed(e.st, e.cur, t) /\ cur' = e.cur
         /\ inited' = TRUE /\ tprev' = t /\ acc' = Accepted(e.cur, t) /\ See(u) /\ at' = t
CallInit ==
    /\ phase = "idle" /\ ops < MaxOps /\ \E t \in Targets : DoInit(t)
    /\ ops' = ops + 1 /\ UNCHANGED <<phase, tgt, c, v0, v1, tries, old>>

CallRun ==
    /\ phase = "idle" /\ ops < MaxOps
    /\ \E t \in Targets :
         IF ~inited THEN DoInit(t) /\ UNCHANGED <<phase, tgt, c, v0, v1, tries, old>>
         ELSE IF t < tprev THEN UNCHANGED <<st, cur, phase, inited, tprev, tgt, c, v0, v1, tries, acc, first, at, old>>  \* refused
         ELSE /\ tgt' = t
              /\ phase' = IF t = tprev THEN "repeat" ELSE "start"
              /\ c' = StartRun(tprev, t, MX)
              /\ tries' = 0 /\ UNCHANGED <<st, cur, inited, tprev, v0, v1, acc, first, at, old>>
    /\ ops' = ops + 1

\* running to the current time: the states are taken over, and the model is evaluated again
Repeat ==
    /\ phase = "repeat"
    /\ \E u \in Vals, g \in {0, 1} :
         LET x == X0(st)
             q == Q0(st)
             s1 == Started(st)
             e == Eval(s1, u, g, x, q, tgt)
         IN /\ st' = Committed(e.st, e.cur, tgt) /\ cur' = e.cur /\ acc' = Accepted(e.cur, tgt) /\ See(u) /\ at' = tgt
    /\ phase' = "idle" /\ tprev' = tgt
    /\ UNCHANGED <<inited, tgt, c, v0, v1, ops, tries, old>>

\* the model is handed to another simulator (of any kind), which then initializes it
HandOver ==
    /\ phase = "idle" /\ inited /\ ops < MaxOps
    /\ inited' = FALSE
    /\ UNCHANGED <<st, cur, phase, tprev, tgt, c, v0, v1, ops, tries, acc, first, at, old>>

StartAttempt ==
    /\ phase = "start"
    /\ v0' = <<X0(st), Q0(st)>> /\ st' = Started(st)
    /\ old' = IF tries = 0 THEN v0' ELSE old
    /\ phase' = "stage"
    /\ UNCHANGED <<cur, inited, tprev, tgt, c, v1, ops, tries, acc, first, at>>
\* a trial evaluation in any state at any time of the step
Stage ==
    /\ phase = "stage"
    /\ \E u \in Vals, g \in {0, 1}, x \in Vals, q \in Vals, t \in {c.t1, c.t2} :
         LET e == Eval(st, u, g, x, q, t) IN st' = e.st /\ cur' = e.cur /\ See(u) /\ at' = t
    /\ phase' = "reply"
    /\ UNCHANGED <<inited, tprev, tgt, c, v0, v1, ops, tries, acc, old>>
Reply ==
    /\ phase = "reply"
    /\ \E nh \in Replies :
         /\ (tries < MaxTries \/ Accept(c, nh, MN))
         /\ \E x \in Vals, q \in Vals : v1' = IF Accept(c, nh, MN) THEN <<x, q>> ELSE <<>>
         /\ c' = AfterReply(c, nh, MN, MX, tgt)
         /\ IF Accept(c, nh, MN) THEN phase' = (IF RunDone(c', tgt) THEN "final" ELSE "commit") /\ tries' = 0
            ELSE phase' = "start" /\ tries' = tries + 1
    /\ UNCHANGED <<st, cur, inited, tprev, tgt, v0, ops, acc, first, at, old>>
Commit ==
    /\ phase \in {"commit", "final"}
    /\ \E u \in Vals, g \in {0, 1} :
         LET t == IF phase = "final" THEN tgt ELSE c.t1
             e == Eval(st, u, g, v1[1], v1[2], t)
         IN /\ st' = Committed(e.st, e.cur, t) /\ cur' = e.cur /\ acc' = Accepted(e.cur, t) /\ See(u) /\ at' = t
    /\ phase' = IF phase = "final" THEN "idle" ELSE "start"
    /\ tprev' = IF phase = "final" THEN tgt ELSE tprev
    /\ UNCHANGED <<inited, tgt, c, v0, v1, ops, tries, old>>

Next == CallInit \/ CallRun \/ HandOver \/ Repeat \/ StartAttempt \/ Stage \/ Reply \/ Commit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The properties                                                            *)
(***************************************************************************)
\* C05: a memory shows the input of the last accepted step, to every evaluation
MemoryRemembers == [][cur' # cur => cur'[5] = <<IF acc = None THEN 7 ELSE acc.u>>]_vars
\* C08: a step starts from the state the last accepted step ended with
IntegratorContinues == phase = "stage" => v0[1] = acc.x
InitialCondition == [][(acc = None /\ acc' # None) => cur'[3] = <<3>> /\ cur'[4] = <<2>>]_vars
\* C09: and from zero after a trigger
TriggerRestarts == [][(phase = "start" /\ phase' = "stage" /\ tries = 0) => v0'[2] = IF acc.g = 1 THEN 0 ELSE acc.q]_vars
\* C27: initializing again, at whatever time, shows what the last accepted step ended with
InitContinues == [][(phase = "idle" /\ acc # None /\ acc' # acc) => /\ cur'[3] = <<acc.x>>
                                                                     /\ cur'[4] = <<IF acc.g = 1 THEN 0 ELSE acc.q>>
                                                                     /\ cur'[5] = <<acc.u>> /\ cur'[6] = <<first>>]_vars
\* C10
InitialValueHolds == [][cur' # cur => cur'[6] = <<first'>>]_vars
\* C13: a retry starts from the same states
RetrySame == phase = "stage" => v0 = old
OnlyAcceptedCommit == [][(phase \in {"stage", "reply"}) => acc' = acc]_vars
\* C12, C13, C14: accepted steps are contiguous, within the limits, and end at the target
StepsContiguous == [][(acc' # acc /\ acc # None /\ phase \in {"commit", "final"}) => /\ acc'.t - acc.t \in 1..MX
                                                                                    /\ acc'.t <= tgt
                                                                                    /\ (acc'.t - acc.t >= MN \/ acc'.t = tgt)]_vars
RunEndsAtTarget == (phase = "idle" /\ inited) => acc.t = tprev
ForcedAccept == [][(phase = "reply" /\ c.force) => phase' # "start"]_vars
RejectKeepsTime == [][(phase = "reply" /\ phase' = "start") => c'.t1 = c.t1 /\ c'.t2 <= c.t2 /\ c'.t2 - c'.t1 >= MN]_vars
\* C03: after a call every signal shows the evaluation at the current time
Fresh == (phase = "idle" /\ inited) => at = tprev /\ cur[7][1] = cur[3][1] + cur[5][1]
\* C14: only an initialization takes the time back
TimeForward == [][tprev' < tprev => phase = "idle" /\ acc'.t = tprev']_vars
=============================================================================
