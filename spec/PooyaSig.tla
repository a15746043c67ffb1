------------------------------ MODULE PooyaSig ------------------------------
(***************************************************************************)
(* Signals and their handles (C19, C20).                                     *)
(*                                                                           *)
(* obj   : the signals ever made, as records [ty, sz, asg, val, of]; ty is   *)
(*         "s" (scalar), "i" (integer), "b" (boolean), "a" (array of sz      *)
(*         elements) or "B" (a bus of the signals `of`); val is a sequence    *)
(*         of numbers                                                         *)
(* hd    : the handles, from handle number to [ty, id]; ty "g" is a generic  *)
(*         reference                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Init0 == [obj |-> <<>>, hd |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* signals that are reachable from a handle, directly or inside buses
RECURSIVE Reach(_, _)
Reach(st, S) == LET more == S \cup UNION {{st.obj[i].of[j] : j \in DOMAIN st.obj[i].of} : i \in S} IN
                IF more = S THEN S ELSE Reach(st, more)
Alive(st) == Reach(st, {st.hd[h].id : h \in DOMAIN st.hd})

Ok(st) == [st |-> st, ok |-> 1, val |-> <<>>]
Refused(st) == [st |-> st, ok |-> 0, val |-> <<>>]
Assign(st, id, v) ==
    LET o == st.obj[id] IN
    IF o.asg \/ Len(v) # o.sz THEN Refused(st)
    ELSE Ok([st EXCEPT !.obj[id].asg = TRUE, !.obj[id].val = v])

Do(st, op) ==
    CASE op.op = "new" ->
           Ok([obj |-> Append(st.obj, [ty |-> op.ty, sz |-> op.sz, asg |-> FALSE, val |-> <<>>, of |-> <<>>]),
               hd |-> Put(st.hd, op.h, [ty |-> op.ty, id |-> Len(st.obj) + 1])])
      [] op.op = "bus" ->
           Ok([obj |-> Append(st.obj, [ty |-> "B", sz |-> 0, asg |-> FALSE, val |-> <<>>, of |-> [k \in DOMAIN op.of |-> st.hd[op.of[k]].id]]),
               hd |-> Put(st.hd, op.h, [ty |-> "B", id |-> Len(st.obj) + 1])])
      [] op.op = "copy" -> Ok([st EXCEPT !.hd = Put(@, op.h, st.hd[op.from])])
      [] op.op = "make" ->
           LET id == st.hd[op.from].id IN
           IF op.ty = "g" \/ op.ty = st.obj[id].ty THEN Ok([st EXCEPT !.hd = Put(@, op.h, [ty |-> op.ty, id |-> id])])
           ELSE Refused(st)
      [] op.op = "reset" ->
           LET id == st.hd[op.from].id IN
           IF st.hd[op.h].ty = st.obj[id].ty THEN Ok([st EXCEPT !.hd[op.h].id = id]) ELSE Refused(st)
      [] op.op = "drop" -> Ok([st EXCEPT !.hd = Del(@, op.h)])
      [] op.op = "set" -> Assign(st, st.hd[op.h].id, op.v)
      [] op.op = "asg" ->
           LET from == st.obj[st.hd[op.from].id] IN
           IF ~from.asg THEN Refused(st) ELSE Assign(st, st.hd[op.h].id, from.val)
      [] op.op = "get" ->
           LET o == st.obj[st.hd[op.h].id] IN
           IF o.asg THEN [st |-> st, ok |-> 1, val |-> o.val] ELSE Refused(st)
      [] op.op = "clear" -> Ok([st EXCEPT !.obj[st.hd[op.h].id].asg = FALSE])

\* operations that make sense in a state
CanDo(st, op) ==
    CASE op.op = "new" -> TRUE
      [] op.op = "bus" -> \A k \in DOMAIN op.of : op.of[k] \in DOMAIN st.hd
      [] op.op \in {"copy", "make"} -> op.from \in DOMAIN st.hd
      [] op.op = "reset" -> op.from \in DOMAIN st.hd /\ op.h \in DOMAIN st.hd /\ st.hd[op.h].ty # "g"
      [] op.op = "drop" -> op.h \in DOMAIN st.hd
      [] op.op \in {"set", "get"} -> op.h \in DOMAIN st.hd /\ st.hd[op.h].ty \notin {"g", "B"}
      [] op.op = "asg" -> op.h \in DOMAIN st.hd /\ op.from \in DOMAIN st.hd /\ st.hd[op.h].ty \notin {"g", "B"} /\ st.hd[op.from].ty = st.hd[op.h].ty
      [] op.op = "clear" -> op.h \in DOMAIN st.hd /\ st.obj[st.hd[op.h].id].ty # "B"

\* a handle with a type denotes a signal of that type
Typed(st) == \A h \in DOMAIN st.hd : st.hd[h].ty \in {"g", st.obj[st.hd[h].id].ty}
=============================================================================
