------------------------------ MODULE PooyaPar ------------------------------
(***************************************************************************)
(* Independent simulations side by side (C28).  A simulation is a sequence   *)
(* of operations on cells of its own: functions are entered and left (their  *)
(* frames are what a diagnostic reports), values are read, worked on in a    *)
(* scratch place, written, and reported.                                     *)
(*                                                                           *)
(* ScrOf and StkOf say which scratch place and which stack a simulation      *)
(* uses.  The library is required to behave as if they were its own.         *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Sims, Prog(_), ScrOf(_), StkOf(_), F(_)

\* the effect of one operation of simulation k on the joint state
Op(s, k) ==
    LET o == Prog(k)[s.pc[k] + 1]
        t == [s EXCEPT !.pc[k] = @ + 1]
    IN CASE o.op = "enter" -> [t EXCEPT !.stk[StkOf(k)] = Append(@, o.f)]
         [] o.op = "leave" -> [t EXCEPT !.stk[StkOf(k)] = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
         [] o.op = "load"  -> [t EXCEPT !.scr[ScrOf(k)] = s.cell[k][o.c]]
         [] o.op = "work"  -> [t EXCEPT !.scr[ScrOf(k)] = F(@)]
         [] o.op = "store" -> [t EXCEPT !.cell[k][o.c] = s.scr[ScrOf(k)], !.log[k] = Append(@, <<o.c, s.scr[ScrOf(k)]>>)]
         [] o.op = "fail"  -> [t EXCEPT !.log[k] = Append(@, s.stk[StkOf(k)]), !.pc[k] = Len(Prog(k)), !.stk[StkOf(k)] = <<>>]
Done(s, k) == s.pc[k] = Len(Prog(k))

RECURSIVE Alone(_, _)
Alone(s, k) == IF Done(s, k) THEN s ELSE Alone(Op(s, k), k)
=============================================================================
