------------------------------ MODULE PooyaDiag ------------------------------
(***************************************************************************)
(* The diagnostic call trace (C25): a stack of the library operations in      *)
(* progress.  An operation that is entered pushes a frame and pops it when    *)
(* it is left, by return or by exception; an error raised by the library      *)
(* carries the stack as it was, innermost first.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Push(stack, f) == Append(stack, f)
Pop(stack) == SubSeq(stack, 1, Len(stack) - 1)
RECURSIVE Rev(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Append(Rev(Tail(q)), Head(q))
ErrorTrace(stack) == Rev(stack)

\* The blocks named by an error's trace: parent[b] is the enclosing submodel, 0 for the root.
RECURSIVE Encl(_, _)
Encl(parent, b) == IF parent[b] = 0 THEN {} ELSE {parent[b]} \cup Encl(parent, parent[b])
\* each named block encloses the ones named before it
Chain(path, parent) == \A k \in 2..Len(path) : path[k] \in Encl(parent, path[k - 1])
\* and if the activation of b failed, b comes first
NamesFailing(path, b) == path # <<>> /\ path[1] = b
\* evaluated through the hierarchy, the enclosing submodels follow, outwards
RECURSIVE Outwards(_, _)
Outwards(parent, b) == IF b = 0 THEN <<>> ELSE <<b>> \o Outwards(parent, parent[b])
=============================================================================
