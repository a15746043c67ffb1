------------------------------- MODULE MCBus -------------------------------
(***************************************************************************)
(* All small nestings of buses and all lookups in them (C21).                *)
(***************************************************************************)
EXTENDS PooyaBus, TLC, Json
CONSTANTS MaxObj, MaxEls, Emit
A == <<97>>
B == <<98>>
Labels == {A, B, <<97, 33>>, <<>>}                 \* "a", "b", "a!" (taken as "a_"), ""
Asked == {A, B, <<97, 95>>, <<97, 33>>, <<>>, <<99>>, <<97, 46, 97>>, <<97, 46, 98>>, <<98, 46, 97>>, <<97, 46>>, <<46, 97>>,
          <<97, 46, 97, 46, 98>>, <<97, 46, 46, 97>>, AutoLabel(0), AutoLabel(1), AutoLabel(1) \o <<46>> \o AutoLabel(0)}
VARIABLES st, hist
vars == <<st, hist>>
Els == UNION {[1..k -> [l : Labels, o : 1..Len(st.obj)]] : k \in 0..MaxEls}
Makes == {[op |-> "sig", ty |-> "s", nm |-> n] : n \in {<<>>, <<110, 36>>}}
         \cup {[op |-> "bus", auto |-> a, nm |-> <<>>, els |-> e] : a \in {0, 1}, e \in Els}
Plain(op) == op.op = "bus" /\ op.auto = 1 => \A k \in DOMAIN op.els : op.els[k].l = A
Buses == {b \in DOMAIN st.obj : st.obj[b].bus}
Asks == {[op |-> o, b |-> b, l |-> l] : o \in {"at", "op", "iat", "try"}, b \in Buses, l \in Asked}
        \cup {[op |-> o, b |-> b, k |-> k] : o \in {"ati", "opi"}, b \in Buses, k \in 0..MaxEls}
Init == st = Init0 /\ hist = <<>>
Make == /\ Len(st.obj) < MaxObj
        /\ \E op \in Makes : Plain(op) /\ st' = Do(st, op).st /\ hist' = Append(hist, op)
Next == Make
Spec == Init /\ [][Next]_vars
View == st
\* one scenario for each state, asking everything
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Emitted == (Emit /\ Len(st.obj) = MaxObj /\ Buses # {}) => PrintT(<<"GEN", ToJson(hist)>>)

LookupAgrees == \A q \in Asks :
    CASE q.op = "try" -> LET r == Do(st, [q EXCEPT !.op = "at"]) IN Do(st, q).got = (IF r.ok = 1 THEN r.got ELSE 0)
      [] q.op = "at" -> LET r == Do(st, q) IN
           r.ok = 1 => r.got \in DOMAIN st.obj
      [] OTHER -> TRUE
\* the first of several equal labels is found
FirstFound == \A b \in Buses : \A k \in DOMAIN st.obj[b].els :
    (\A j \in 1..(k - 1) : st.obj[b].els[j].l # st.obj[b].els[k].l) /\ DotAt(st.obj[b].els[k].l, 1) = 0
    => Lookup(st, b, st.obj[b].els[k].l) = st.obj[b].els[k].o
LabelsLegal == \A b \in Buses : \A k \in DOMAIN st.obj[b].els : \A c \in DOMAIN st.obj[b].els[k].l : Legal(st.obj[b].els[k].l[c])
\* a dotted label is the lookup in the sub-bus
Descends == \A b \in Buses : \A c \in Buses : Lookup(st, b, A) = c => \A l \in {A, B, <<97, 95>>} : Lookup(st, b, A \o <<46>> \o l) = Lookup(st, c, l)
=============================================================================
