------------------------------ MODULE PooyaTree ------------------------------
(***************************************************************************)
(* The block hierarchy (C23): par[b] is the parent (0: none), kids[b] the     *)
(* children in the order they were added, con[b] whether the block was        *)
(* connected.  Results: "T" (done), "F" (refused), "X" (an exception).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Init0 == [par |-> <<>>, kids |-> <<>>, leaf |-> <<>>, con |-> <<>>]
Blocks(st) == DOMAIN st.par
Has(seq, x) == \E k \in DOMAIN seq : seq[k] = x
RECURSIVE Above(_, _)
Above(st, b) == IF b = 0 THEN {} ELSE {b} \cup Above(st, st.par[b])

SetParent(st, b, p) ==
    IF st.par[b] \notin {0, p} \/ b \in Above(st, p) THEN [st |-> st, r |-> "F"]
    ELSE [st |-> [st EXCEPT !.par[b] = p, !.kids[p] = IF Has(@, b) THEN @ ELSE Append(@, b)], r |-> "T"]

\* the blocks a visit starting at b with level lvl reaches, in order, with their levels; max -1: no limit
RECURSIVE Visit(_, _, _, _), VisitAll(_, _, _, _, _)
Visit(st, b, lvl, max) ==
    IF max # -1 /\ lvl > max THEN <<>>
    ELSE <<<<b, lvl>>>> \o (IF max # -1 /\ lvl >= max THEN <<>> ELSE VisitAll(st, st.kids[b], 1, lvl + 1, max))
VisitAll(st, ks, k, lvl, max) == IF k > Len(ks) THEN <<>> ELSE Visit(st, ks[k], lvl, max) \o VisitAll(st, ks, k + 1, lvl, max)

Res(st, r, vis) == [st |-> st, r |-> r, vis |-> vis]
Do(st, op) ==
    CASE op.op = "mk" ->
           LET n == Len(st.par) + 1
               s1 == [par |-> Append(st.par, op.par), kids |-> Append(st.kids, <<>>), leaf |-> Append(st.leaf, op.leaf), con |-> Append(st.con, 0)]
           IN Res(IF op.par = 0 THEN s1 ELSE [s1 EXCEPT !.kids[op.par] = Append(@, n)], "T", <<>>)
      [] op.op = "setp" -> LET x == SetParent(st, op.b, op.p) IN Res(x.st, x.r, <<>>)
      [] op.op = "add" ->
           LET x == SetParent(st, op.b, op.p) IN
           IF x.r = "F" THEN Res(st, "F", <<>>)
           ELSE IF st.con[op.b] = 1 THEN Res(x.st, "X", <<>>)
           ELSE Res([x.st EXCEPT !.con[op.b] = 1], "T", <<>>)
      [] op.op = "link" -> Res(st, IF st.par[op.b] = op.p THEN "T" ELSE "F", <<>>)
      [] op.op = "visit" ->
           LET v == Visit(st, op.b, op.lvl, op.max) IN
           IF op.stop > 0 /\ op.stop <= Len(v) THEN Res(st, "F", SubSeq(v, 1, op.stop)) ELSE Res(st, "T", v)
=============================================================================
