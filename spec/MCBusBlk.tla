------------------------------ MODULE MCBusBlk ------------------------------
(***************************************************************************)
(* Bus memories and bus pipes on all buses of two levels with up to two       *)
(* labels each, in any order of labels, with an excluded label and an initial *)
(* value (C11).  Numbers are integers.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Emit
IAdd(a, b) == a + b
ISub(a, b) == a - b
IMul(a, b) == a * b
IDiv(a, b) == a \div b
IFloor(a) == a
IOf(a) == a
ILt(a, b) == a < b
ILe(a, b) == a <= b
IClose(a, b) == a = b
INSTANCE PooyaBlocks WITH NAdd <- IAdd, NSub <- ISub, NMul <- IMul, NDiv <- IDiv, NFloor <- IFloor, NOf <- IOf, NLt <- ILt, NLe <- ILe, NClose <- IClose

Labels == <<"a", "b">>
Subs == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>}
Shapes == {<<"none">>, <<"leaf">>} \cup {<<"bus", q>> : q \in Subs}
Paths == {<<"a">>, <<"b">>, <<"a", "a">>, <<"a", "b">>, <<"b", "a">>, <<"b", "b">>}
Num(p) == CASE p = <<"a">> -> 1 [] p = <<"b">> -> 2 [] p = <<"a", "a">> -> 3 [] p = <<"a", "b">> -> 4 [] p = <<"b", "a">> -> 5 [] p = <<"b", "b">> -> 6
Exs == {{}} \cup {{[t |-> "s", p |-> p]} : p \in Paths} \cup {{[t |-> "b", p |-> p]} : p \in {<<"a">>, <<"b">>}}
       \cup {{[t |-> "b", p |-> <<"a">>], [t |-> "s", p |-> <<"b", "a">>]}, {[t |-> "s", p |-> <<"b">>], [t |-> "s", p |-> <<"a", "b">>]}}
Ivs == {{}} \cup {{p} : p \in Paths} \cup {{<<"a">>, <<"b", "b">>}, {<<"a", "a">>, <<"a", "b">>}}

Flip(q, f) == IF f = 1 /\ Len(q) = 2 THEN <<q[2], q[1]>> ELSE q
SubBus(sh, l, off, f) == [els |-> IF sh[1] # "bus" THEN <<>>
                                  ELSE LET q == Flip(sh[2], f) IN [k \in DOMAIN q |-> [l |-> q[k], t |-> "s", id |-> off + Num(<<l, q[k]>>)]]]
TopBus(a, b, off, sub, f) ==
    LET el(sh, l) == IF sh[1] = "none" THEN <<>> ELSE <<[l |-> l, t |-> IF sh[1] = "leaf" THEN "s" ELSE "b",
                                                        id |-> IF sh[1] = "leaf" THEN off + Num(<<l>>) ELSE sub + (IF l = "a" THEN 1 ELSE 2)]>>
    IN [els |-> IF f = 0 THEN el(a, "a") \o el(b, "b") ELSE el(b, "b") \o el(a, "a")]

VARIABLES c
Init == /\ c \in [a : Shapes, b : Shapes, f : {1}, g : {0, 1}, ex : Exs, iv : Ivs, k : {"busmem", "buspipe"}]
        /\ c.k = "buspipe" => c.iv = {}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
BusesOf(f, g) == <<SubBus(c.a, "a", 0, 0), SubBus(c.b, "b", 0, 0), SubBus(c.a, "a", 6, g), SubBus(c.b, "b", 6, g),
                   TopBus(c.a, c.b, 0, 0, f), TopBus(c.a, c.b, 6, 2, g)>>
Buses == BusesOf(c.f, c.g)
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Blk(iv) == [k |-> c.k, bi |-> 5, bo |-> 6, ex |-> ToSeq(c.ex), iv |-> [j \in DOMAIN iv |-> [p |-> iv[j], v |-> <<Num(iv[j]) + 20>>]]]
B == Blk(IF c.k = "busmem" THEN ToSeq(c.iv) ELSE <<>>)
Parts(bs) == BusParts(B, bs, LAMBDA x : 1, LAMBDA x : "s")
InBus(p) == IF Len(p) = 1 THEN (IF p[1] = "a" THEN c.a ELSE c.b)[1] = "leaf"
            ELSE LET sh == IF p[1] = "a" THEN c.a ELSE c.b IN sh[1] = "bus" /\ \E k \in DOMAIN sh[2] : sh[2][k] = p[2]
Excluded(p) == \E e \in c.ex : (e.t = "s" /\ e.p = p) \/ (e.t = "b" /\ Len(e.p) < Len(p) /\ SubSeq(p, 1, Len(e.p)) = e.p)
Wanted == {p \in Paths : InBus(p) /\ ~Excluded(p)}
\* exactly the wanted labels are served, each from and to the signals of that label
Served == /\ {<<Parts(Buses)[k].i[1], Parts(Buses)[k].o[1]>> : k \in DOMAIN Parts(Buses)} = {<<Num(p), Num(p) + 6>> : p \in Wanted}
          /\ Len(Parts(Buses)) = Cardinality(Wanted)
\* the order of labels does not matter
OrderFree == {Parts(BusesOf(0, 0))[k] : k \in DOMAIN Parts(BusesOf(0, 0))} = {Parts(Buses)[k] : k \in DOMAIN Parts(Buses)}
Initials == c.k = "busmem" => \A k \in DOMAIN Parts(Buses) : LET q == Parts(Buses)[k] IN
               q.p = IF \E p \in c.iv : Num(p) = q.i[1] THEN <<q.i[1] + 20>> ELSE <<0>>
UnusedFound == c.k = "busmem" => ({B.iv[j].p : j \in UnusedInit(B, Buses)} = c.iv \ Wanted)
Emitted == Emit => PrintT(<<"GEN", ToJson([k |-> c.k, buses |-> Buses, ex |-> ToSeq(c.ex), iv |-> B.iv])>>)
=============================================================================
