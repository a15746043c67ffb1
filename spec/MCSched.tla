------------------------------ MODULE MCSched ------------------------------
(***************************************************************************)
(* The three schedulers of pooya on every small model (C01, C02).            *)
(*                                                                           *)
(* A model is a sequence of N blocks in declaration order; block k outputs   *)
(* signal k.  Kinds: "alg" requires all its inputs; "mem" requires nothing   *)
(* (a memory); "int" is an integrator, whose output is assigned before any   *)
(* block is activated.  Input 0 is an external input, which is either there  *)
(* or not in an evaluation.                                                  *)
(*                                                                           *)
(*   sim    sweeps over the blocks in declaration order until a sweep        *)
(*          activates nothing                                                *)
(*   reuse  the same over a list that it reorders by the order of activation *)
(*          for the next evaluation                                          *)
(*   fast   finds an order layer by layer when initialized and afterwards    *)
(*          only follows it; refuses if not every block can be reached       *)
(* Every transition looks at one block.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxIn, Passes, Emit
Blocks == 1..N

SmallSets(k) == {S \in SUBSET (0..N) : Cardinality(S) <= k}
BlockChoices == {[k |-> "alg", i |-> S] : S \in SmallSets(MaxIn)}
                \cup {[k |-> "mem", i |-> {x}] : x \in 1..N}
                \cup {[k |-> "int", i |-> {x}] : x \in 1..N}

Req(b) == IF b.k = "alg" THEN b.i ELSE {}
\* what is assigned before the first activation
Given(g, ext) == {k \in Blocks : g[k].k = "int"} \cup (IF ext THEN {0} ELSE {})

\* what any schedule must activate: the least fixpoint
RECURSIVE Fix(_, _)
Fix(g, asg) == LET more == {k \in Blocks : Req(g[k]) \subseteq asg} IN
               IF more \subseteq asg THEN asg ELSE Fix(g, asg \cup more)
Reach(g, ext) == {k \in Blocks : Req(g[k]) \subseteq Fix(g, Given(g, ext))}

VARIABLES g, eng, pass, ext, phase, list, pos, prog, asg, act, plan, layer
vars == <<g, eng, pass, ext, phase, list, pos, prog, asg, act, plan, layer>>

Ready(k) == Req(g[k]) \subseteq asg
Active == {act[j] : j \in DOMAIN act}

Init == /\ g \in [Blocks -> BlockChoices]
        /\ eng \in {"sim", "reuse", "fast"}
        /\ pass = 1 /\ ext \in BOOLEAN /\ phase = IF eng = "fast" THEN "discover" ELSE "sweep"
        /\ list = [k \in Blocks |-> k] /\ pos = 1 /\ prog = FALSE
        /\ asg = Given(g, ext) /\ act = <<>> /\ plan = <<>> /\ layer = {}

\* sim and reuse: visit the next block of the list
Visit ==
    /\ phase = "sweep" /\ pos <= N
    /\ LET k == list[pos] IN
       IF k \notin Active /\ Ready(k)
       THEN act' = Append(act, k) /\ asg' = asg \cup {k} /\ prog' = TRUE
       ELSE UNCHANGED <<act, asg, prog>>
    /\ pos' = pos + 1
    /\ UNCHANGED <<g, eng, pass, ext, phase, list, plan, layer>>
Sweep ==
    /\ phase = "sweep" /\ pos > N
    /\ IF prog THEN pos' = 1 /\ prog' = FALSE /\ phase' = phase ELSE phase' = "done" /\ UNCHANGED <<pos, prog>>
    /\ UNCHANGED <<g, eng, pass, ext, list, asg, act, plan, layer>>

\* fast: one layer after the other when initializing
Rest(s, done) == SelectSeq(s, LAMBDA k : k \notin done)
Layer ==
    /\ phase = "discover" /\ layer = {}
    /\ LET new == {k \in Blocks \ {plan[j] : j \in DOMAIN plan} : Ready(k)} IN
       IF new # {} THEN layer' = new /\ UNCHANGED <<phase, asg, pos>>
       ELSE IF Len(plan) = N THEN phase' = "follow" /\ asg' = Given(g, ext) /\ pos' = 1 /\ UNCHANGED layer
       ELSE phase' = "refused" /\ UNCHANGED <<asg, pos, layer>>
    /\ UNCHANGED <<g, eng, pass, ext, list, prog, act, plan>>
Plan ==
    /\ phase = "discover" /\ layer # {}
    /\ LET k == CHOOSE k \in layer : \A m \in layer : k <= m IN
       plan' = Append(plan, k) /\ asg' = asg \cup {k} /\ layer' = layer \ {k}
    /\ UNCHANGED <<g, eng, pass, ext, phase, list, pos, prog, act>>
Follow ==
    /\ phase = "follow"
    /\ IF pos <= N THEN act' = Append(act, plan[pos]) /\ asg' = asg \cup {plan[pos]} /\ pos' = pos + 1 /\ phase' = phase
       ELSE phase' = "done" /\ UNCHANGED <<act, asg, pos>>
    /\ UNCHANGED <<g, eng, pass, ext, list, prog, plan, layer>>

\* the next evaluation; a model on the fast simulator keeps its inputs
NextPass ==
    /\ phase = "done" /\ pass < Passes
    /\ pass' = pass + 1
    /\ ext' \in (IF eng = "fast" THEN {ext} ELSE BOOLEAN)
    /\ phase' = IF eng = "fast" THEN "follow" ELSE "sweep"
    /\ list' = IF eng = "reuse" THEN act \o Rest(list, Active) ELSE list
    /\ pos' = 1 /\ prog' = FALSE /\ asg' = Given(g, ext') /\ act' = <<>>
    /\ UNCHANGED <<g, eng, plan, layer>>

Next == Visit \/ Sweep \/ Layer \/ Plan \/ Follow \/ NextPass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* C01                                                                       *)
(***************************************************************************)
Before(j) == Given(g, ext) \cup {act[m] : m \in 1..(j - 1)}
OnlyWhenReady == \A j \in DOMAIN act : Req(g[act[j]]) \subseteq Before(j)
Once == \A j, m \in DOMAIN act : j # m => act[j] # act[m]
Complete == phase = "done" => Active = Reach(g, ext)
Refusal == /\ phase = "refused" => Reach(g, ext) # Blocks
           /\ (eng = "fast" /\ phase = "done") => Reach(g, ext) = Blocks
\* a block on an algebraic loop is one that would have to wait for itself
RECURSIVE Up(_, _)
Up(k, S) == LET T == S \cup UNION {Req(g[m]) \ {0} : m \in {m \in S : g[m].k = "alg"}} IN IF T = S THEN S ELSE Up(k, T)
OnLoop(k) == \E m \in Req(g[k]) \ {0} : g[m].k = "alg" /\ k \in Up(m, {m}) 
LoopsNeverRun == \A j \in DOMAIN act : g[act[j]].k = "alg" => ~OnLoop(act[j])
\* and without loops everything runs
NoLoopAllRun == (phase = "done" /\ ext /\ \A k \in Blocks : g[k].k = "alg" => ~OnLoop(k)) => Active = Blocks
Permutation == {list[j] : j \in DOMAIN list} = Blocks
Terminates == <>(phase \in {"done", "refused"})

\* emits every model for the conformance runs
Stop == ~Emit \/ phase = "nothing"   \* only the initial states are wanted then
Emitted == (Emit /\ pass = 1 /\ eng = "sim" /\ ext /\ pos = 1 /\ act = <<>> /\ phase = "sweep" /\ ~prog) =>
           PrintT(<<"GEN", ToJson([k \in Blocks |-> [k |-> g[k].k, i |-> g[k].i]])>>)
=============================================================================
