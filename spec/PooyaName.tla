------------------------------ MODULE PooyaName ------------------------------
(***************************************************************************)
(* Names of blocks and signals and full names of blocks (C22).               *)
(* blk: sequence of [par, nm] (par 0: none); sig: sequence of names.         *)
(***************************************************************************)
EXTENDS PooyaNames, FiniteSets

Init0 == [blk |-> <<>>, sig |-> <<>>]
RECURSIVE FullName(_, _)
FullName(st, b) == (IF st.blk[b].par = 0 THEN <<>> ELSE FullName(st, st.blk[b].par)) \o <<Slash>> \o st.blk[b].nm
RECURSIVE Above(_, _)
Above(st, b) == IF b = 0 THEN {} ELSE {b} \cup Above(st, st.blk[b].par)

Res(st, v) == [st |-> st, v |-> v]
Do(st, op) ==
    CASE op.op = "blk" -> Res([st EXCEPT !.blk = Append(@, [par |-> op.par, nm |-> Emend(op.nm), leaf |-> op.leaf])], <<>>)
      [] op.op = "setp" -> Res(IF st.blk[op.b].par = 0 /\ op.b \notin Above(st, op.par) THEN [st EXCEPT !.blk[op.b].par = op.par] ELSE st, <<>>)
      [] op.op = "ren" -> Res([st EXCEPT !.blk[op.b].nm = Emend(op.nm)], <<>>)
      [] op.op = "sig" -> Res([st EXCEPT !.sig = Append(@, Emend(op.nm))], <<>>)
      [] op.op = "rens" -> Res([st EXCEPT !.sig[op.s] = Emend(op.nm)], <<>>)
      [] op.op \in {"valid", "validasg"} -> Res(st, Emend(op.nm))
      [] op.op = "dot" -> Res(st, Emend(op.a) \o <<Dot>> \o Emend(op.nm))
      [] op.op = "slash" -> Res(st, Emend(op.a) \o <<Slash>> \o Emend(op.nm))
=============================================================================
