------------------------------ MODULE PooyaConn ------------------------------
(***************************************************************************)
(* Connecting blocks (C24).  obj: "v" (value signal) or "B" (bus) for each    *)
(* signal made; blk: [ni, no, con, i, o], -1 meaning any number of signals.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Init0 == [obj |-> <<>>, blk |-> <<>>]
\* the numbers of inputs and outputs a kind of block declares; others declare what they are given
Ports(op) == CASE op.k \in {"gain", "pipe", "mem", "deriv"} -> <<1, 1>>
               [] op.k = "integ" -> <<1, 1>>
               [] op.k \in {"add", "mul"} -> <<-1, 1>>
               [] op.k = "sub2" -> <<2, 1>>
               [] op.k = "const" -> <<0, 1>>
               [] op.k = "source" -> <<-1, 1>>
               [] OTHER -> <<op.ni, op.no>>
Fits(want, n) == want = -1 \/ want = n
Res(st, ok) == [st |-> st, ok |-> ok]
Do(st, op) ==
    CASE op.op = "sig" -> Res([st EXCEPT !.obj = Append(@, "v")], 1)
      [] op.op = "bus" -> Res([st EXCEPT !.obj = Append(@, "B")], 1)
      [] op.op = "blk" -> Res([st EXCEPT !.blk = Append(@, [ni |-> Ports(op)[1], no |-> Ports(op)[2], con |-> 0, i |-> <<>>, o |-> <<>>])], 1)
      [] op.op \in {"connect", "addb"} ->
           LET b == st.blk[op.b] IN
           IF b.con = 0 /\ Fits(b.ni, Len(op.i)) /\ Fits(b.no, Len(op.o))
           THEN Res([st EXCEPT !.blk[op.b] = [b EXCEPT !.con = 1, !.i = op.i, !.o = op.o]], 1)
           ELSE Res(st, 0)
\* what a block has recorded about the value signals wired to it: <<signal, as input, as output>>
Links(st, b) ==
    LET i == {st.blk[b].i[k] : k \in DOMAIN st.blk[b].i}
        o == {st.blk[b].o[k] : k \in DOMAIN st.blk[b].o}
    IN {<<x, IF x \in i THEN 1 ELSE 0, IF x \in o THEN 1 ELSE 0>> : x \in {y \in i \cup o : st.obj[y] = "v"}}
=============================================================================
