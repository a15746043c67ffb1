------------------------------ MODULE PooyaBus ------------------------------
(***************************************************************************)
(* Buses: construction, labels and lookup (C21).  obj is a sequence of        *)
(* [bus, nm, els]; els is a sequence of [l, o], the label and the signal.     *)
(***************************************************************************)
EXTENDS PooyaNames, FiniteSets

Init0 == [obj |-> <<>>]
\* the signal a label leads to, 0 if there is none
RECURSIVE Lookup(_, _, _)
Lookup(st, b, l) ==
    LET d == DotAt(l, 1)
        head == IF d = 0 THEN l ELSE SubSeq(l, 1, d - 1)
        hits == {k \in DOMAIN st.obj[b].els : st.obj[b].els[k].l = head}
        o == st.obj[b].els[CHOOSE k \in hits : \A j \in hits : k <= j].o
    IN IF hits = {} THEN 0
       ELSE IF d = 0 THEN o
       ELSE IF st.obj[o].bus THEN Lookup(st, o, SubSeq(l, d + 1, Len(l)))
       ELSE 0

\* signals without a name take the label they first get
RECURSIVE Named(_, _, _)
Named(obj, els, k) ==
    IF k > Len(els) THEN obj
    ELSE Named(IF obj[els[k].o].nm = <<>> THEN [obj EXCEPT ![els[k].o].nm = els[k].l] ELSE obj, els, k + 1)

Labelled(op) == [k \in DOMAIN op.els |-> [l |-> IF op.auto = 1 THEN AutoLabel(k - 1) ELSE Emend(op.els[k].l), o |-> op.els[k].o]]
Res(st, ok, got) == [st |-> st, ok |-> ok, got |-> got]
Do(st, op) ==
    CASE op.op = "sig" -> Res([obj |-> Append(st.obj, [bus |-> FALSE, nm |-> Emend(op.nm), els |-> <<>>])], 1, 0)
      [] op.op = "bus" ->
           LET els == Labelled(op) IN
           Res([obj |-> Append(Named(st.obj, els, 1), [bus |-> TRUE, nm |-> Emend(op.nm), els |-> els])], 1, 0)
      [] op.op \in {"ati", "opi"} ->
           LET els == st.obj[op.b].els IN
           IF op.k < Len(els) THEN Res(st, 1, els[op.k + 1].o) ELSE Res(st, 0, 0)
      [] op.op \in {"at", "op", "iat"} ->
           LET o == Lookup(st, op.b, op.l) IN Res(st, IF o = 0 THEN 0 ELSE 1, o)
      [] op.op = "try" -> Res(st, 1, Lookup(st, op.b, op.l))
=============================================================================
