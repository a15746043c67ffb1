------------------------------ MODULE PooyaHist ------------------------------
(***************************************************************************)
(* Histories of signal values (C17, C18).                                    *)
(*                                                                           *)
(* obj : the signals, [ty, sz, nm, asg, val]; ty "B" is not a value signal   *)
(* trk : the tracked signals, in order; rows: what was recorded, a sequence  *)
(* of [t, v] with v[j] the values of trk[j]; shr: just shrunk                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Zero

Init0 == [obj |-> <<>>, trk |-> <<>>, rows |-> <<>>, shr |-> FALSE]
Has(s, x) == \E k \in DOMAIN s : s[k] = x
Zeros(n) == [k \in 1..n |-> Zero]
Values(st, t) == [t |-> t, v |-> [j \in DOMAIN st.trk |-> LET o == st.obj[st.trk[j]] IN IF o.asg THEN o.val ELSE Zeros(o.sz)]]
Begun(st) == st.rows # <<>>
Res(st, ok) == [st |-> st, ok |-> ok]
Do(st, op) ==
    CASE op.op = "sig" -> Res([st EXCEPT !.obj = Append(@, [ty |-> op.ty, sz |-> op.sz, nm |-> op.nm, asg |-> FALSE, val |-> <<>>])], 1)
      [] op.op = "bus" -> Res([st EXCEPT !.obj = Append(@, [ty |-> "B", sz |-> 0, nm |-> "bus", asg |-> FALSE, val |-> <<>>])], 1)
      [] op.op = "new" -> Res([st EXCEPT !.trk = <<>>, !.rows = <<>>, !.shr = FALSE], 1)
      [] op.op = "set" -> Res([st EXCEPT !.obj[op.s].asg = TRUE, !.obj[op.s].val = op.v], 1)
      [] op.op = "clear" -> Res([st EXCEPT !.obj[op.s].asg = FALSE], 1)
      [] op.op = "track" ->
           IF Begun(st) \/ st.obj[op.s].ty = "B" \/ Has(st.trk, op.s) THEN Res(st, 0)
           ELSE Res([st EXCEPT !.trk = Append(@, op.s)], 1)
      [] op.op = "untrack" ->
           IF Begun(st) THEN Res(st, 0) ELSE Res([st EXCEPT !.trk = SelectSeq(@, LAMBDA x : x # op.s)], 1)
      [] op.op = "upd" ->
           IF st.trk = <<>> THEN Res(st, 1)
           ELSE Res([st EXCEPT !.rows = IF op.k < Len(@) THEN [@ EXCEPT ![op.k + 1] = Values(st, op.t)] ELSE Append(@, Values(st, op.t)),
                               !.shr = FALSE], 1)
      [] op.op = "shrink" -> Res([st EXCEPT !.shr = TRUE], 1)
      [] op.op \in {"read", "csv"} -> Res(st, 1)
\* rows are recorded one after the other
CanDo(st, op) == op.op = "upd" => op.k <= Len(st.rows)
=============================================================================
