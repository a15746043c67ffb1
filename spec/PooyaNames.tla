----------------------------- MODULE PooyaNames -----------------------------
(***************************************************************************)
(* Names and labels (C21, C22), as sequences of byte values.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Legal(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95
Emend(n) == [k \in DOMAIN n |-> IF Legal(n[k]) THEN n[k] ELSE 95]
Slash == 47
Dot == 46
RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<48 + k>> ELSE Digits(k \div 10) \o <<48 + (k % 10)>>
\* the label of the element number k (from 0) of a bus without labels: "sig<k>"
AutoLabel(k) == <<115, 105, 103>> \o Digits(k)

\* position of the first dot, 0 if there is none
RECURSIVE DotAt(_, _)
DotAt(l, k) == IF k > Len(l) THEN 0 ELSE IF l[k] = Dot THEN k ELSE DotAt(l, k + 1)
=============================================================================
