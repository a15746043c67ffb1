------------------------------ MODULE TraceApi ------------------------------
(***************************************************************************)
(* Trace specification of the interfaces outside simulations: signals and     *)
(* handles, buses, names, the block hierarchy, connections, histories,        *)
(* steppers and diagnostics.  Each scenario drives the real objects through a *)
(* sequence of operations (driver/api*.cpp) and records, after each, its      *)
(* outcome and everything observable; here the corresponding specification    *)
(* does the same operation and both are compared.  Departures go into `bad`,  *)
(* the logged state is adopted where it can be, and checking goes on.         *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Sg == INSTANCE PooyaSig
Bu == INSTANCE PooyaBus
Nm == INSTANCE PooyaName
Tr == INSTANCE PooyaTree
Cn == INSTANCE PooyaConn
Hi == INSTANCE PooyaHist WITH Zero <- "0"
Dg == INSTANCE PooyaDiag
St == INSTANCE PooyaStepper WITH SAdd <- F64Add, SSub <- F64Sub, SMul <- F64Mul, SDiv <- F64Div, SOf <- F64Of, SLt <- F64Lt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cnt
vars == <<l, s, bad, cnt>>

Chk(ok, aspect, msg) == IF ok THEN {} ELSE {<<aspect, ToString(msg)>>}   \* strings only: sets of them can be compared
R(st, b) == [st |-> st, b |-> b]
Rng(q) == {q[k] : k \in DOMAIN q}
VEq(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : F64Eq(a[k], b[k])

(***************************************************************************)
(* Signals and handles                                                       *)
(***************************************************************************)
DoSig(st, ev) ==
    LET op == ev.op
        r == Sg!Do(st, op)
        n == r.st
        hs == {<<x[1], x[2], x[3]>> : x \in Rng(ev.hs)}
        wanths == {<<h, n.hd[h].id, n.hd[h].id>> : h \in DOMAIN n.hd}
        al == Rng(ev.al)
        obOk(o) == LET w == n.obj[o.id] IN
                   o.ty = w.ty /\ (w.ty = "B" \/ ((o.asg = 1) = w.asg /\ (w.asg => VEq(o.val, w.val))))
        touched == IF op.op \in {"set", "asg", "clear"} THEN n.hd[op.h].id ELSE 0
        wrong == {o.id : o \in {o \in Rng(ev.ob) : o.id \in DOMAIN n.obj /\ ~obOk(o)}}
        asp == IF op.op \in {"set", "asg", "get", "clear", "new"} THEN "value" ELSE "handle"
        b == Chk(ev.ok = r.ok, asp, <<op, IF r.ok = 1 THEN "was refused" ELSE "was not refused", ev.why>>)
             \cup (IF op.op = "get" /\ r.ok = 1 /\ ev.ok = 1 THEN Chk(VEq(ev.val, r.val), "value", <<op, "read", ev.val, "expected", r.val>>) ELSE {})
             \cup Chk(hs = wanths, "handle", <<op, "handles", hs, "expected", wanths>>)
             \cup Chk(al = Sg!Alive(n), "handle", <<op, "living signals", al, "expected", Sg!Alive(n)>>)
             \cup Chk(wrong = {}, "value", <<op, "values of signals", wrong>>)
             \cup Chk(wrong \subseteq {touched}, "handle", <<op, "changed signals", wrong>>)
        \* go on from what is there
        adopt == [obj |-> [i \in DOMAIN n.obj |->
                             IF \E o \in Rng(ev.ob) : o.id = i
                             THEN LET o == CHOOSE o \in Rng(ev.ob) : o.id = i IN [n.obj[i] EXCEPT !.asg = (o.asg = 1), !.val = IF o.asg = 1 THEN o.val ELSE <<>>]
                             ELSE n.obj[i]],
                  hd |-> [h \in {x[1] : x \in hs} |-> LET x == CHOOSE x \in hs : x[1] = h IN
                             [ty |-> IF h \in DOMAIN n.hd THEN n.hd[h].ty ELSE op.ty, id |-> x[2]]]]
    IN R(IF b = {} THEN n ELSE adopt, b)

(***************************************************************************)
(* Buses                                                                     *)
(***************************************************************************)
DoBus(st, ev) ==
    LET op == ev.op
        r == Bu!Do(st, op)
        n == r.st
        new == op.op = "bus"
        b == Chk(ev.ok = r.ok, "bus", <<op, IF r.ok = 1 THEN "was refused" ELSE "was not refused">>)
             \cup (IF ev.ok = 1 /\ r.ok = 1 THEN Chk(ev.got = r.got, "bus", <<op, "found", ev.got, "expected", r.got>>) ELSE {})
             \cup (IF new /\ ev.ok = 1
                   THEN LET want == n.obj[Len(n.obj)].els IN
                        Chk(ev.size = Len(want) /\ ev.els = want, "bus", <<op, "elements", ev.els, "expected", want>>) ELSE {})
             \cup Chk(Len(ev.nm) = Len(n.obj) /\ \A k \in DOMAIN n.obj : ev.nm[k] = n.obj[k].nm, "bus", <<op, "names", ev.nm, "expected", [k \in DOMAIN n.obj |-> n.obj[k].nm]>>)
    IN IF Len(ev.nm) # Len(n.obj) THEN R(st, b)
       ELSE R([obj |-> [k \in DOMAIN n.obj |-> [n.obj[k] EXCEPT !.nm = ev.nm[k], !.els = IF new /\ k = Len(n.obj) /\ ev.ok = 1 THEN ev.els ELSE @]]], b)

(***************************************************************************)
(* Names                                                                     *)
(***************************************************************************)
DoName(st, ev) ==
    LET op == ev.op
        r == Nm!Do(st, op)
        n == r.st
        bn == [k \in DOMAIN n.blk |-> n.blk[k].nm]
        fn == [k \in DOMAIN n.blk |-> Nm!FullName(n, k)]
        b == Chk(op.op \notin {"valid", "validasg", "dot", "slash"} \/ ev.v = r.v, "name", <<op, "gives", ev.v, "expected", r.v>>)
             \cup Chk(ev.bn = bn, "name", <<op, "block names", ev.bn, "expected", bn>>)
             \cup Chk(ev.fn = fn, "name", <<op, "full names", ev.fn, "expected", fn>>)
             \cup Chk(ev.sn = n.sig, "name", <<op, "signal names", ev.sn, "expected", n.sig>>)
    IN R([blk |-> [k \in DOMAIN n.blk |-> [n.blk[k] EXCEPT !.nm = IF k \in DOMAIN ev.bn THEN ev.bn[k] ELSE @]],
          sig |-> IF Len(ev.sn) = Len(n.sig) THEN ev.sn ELSE n.sig], b)

(***************************************************************************)
(* The hierarchy                                                             *)
(***************************************************************************)
DoTree(st, ev) ==
    LET op == ev.op
        r == Tr!Do(st, op)
        n == r.st
        b == Chk(ev.r = r.r, "tree", <<op, "result", ev.r, "expected", r.r>>)
             \cup Chk(ev.vis = r.vis, "tree", <<op, "visited", ev.vis, "expected", r.vis>>)
             \cup Chk(ev.par = n.par, "tree", <<op, "parents", ev.par, "expected", n.par>>)
             \cup Chk(ev.kids = n.kids, "tree", <<op, "children", ev.kids, "expected", n.kids>>)
             \cup Chk(ev.con = n.con, "tree", <<op, "connected", ev.con, "expected", n.con>>)
    IN R(IF b = {} THEN n ELSE [n EXCEPT !.par = ev.par, !.kids = ev.kids, !.con = ev.con], b)

(***************************************************************************)
(* Connections                                                               *)
(***************************************************************************)
DoConn(st, ev) ==
    LET op == ev.op
        r == Cn!Do(st, op)
        n == r.st
        blkBad(k) == LET x == ev.blks[k] w == n.blk[k] ln == {<<y[1], y[2], y[3]>> : y \in Rng(x.ln)} IN
            Chk(x.con = w.con, "conn", <<op, "block", k, IF x.con = 1 THEN "is connected" ELSE "is not connected">>)
            \cup Chk(x.i = w.i /\ x.o = w.o, "conn", <<op, "block", k, "signals", x.i, x.o, "expected", w.i, w.o>>)
            \cup Chk(Len(x.ln) = Cardinality(ln) /\ ln = Cn!Links(n, k), "conn", <<op, "block", k, "links", x.ln, "expected", Cn!Links(n, k)>>)
        b == Chk(ev.ok = r.ok, "conn", <<op, IF r.ok = 1 THEN "was refused" ELSE "was not refused", ev.why>>)
             \cup UNION {blkBad(k) : k \in DOMAIN n.blk}
    IN R(IF b = {} THEN n ELSE [n EXCEPT !.blk = [k \in DOMAIN n.blk |-> [@[k] EXCEPT !.con = ev.blks[k].con, !.i = ev.blks[k].i, !.o = ev.blks[k].o]]], b)

(***************************************************************************)
(* Histories                                                                 *)
(***************************************************************************)
Column(st, x, e) == [k \in DOMAIN st.rows |-> LET j == CHOOSE j \in DOMAIN st.trk : st.trk[j] = x IN st.rows[k].v[j][e]]
Heading(o, e) == IF o.ty = "a" THEN o.nm \o "[" \o ToString(e - 1) \o "]" ELSE o.nm
DoHist(st, ev) ==
    LET op == ev.op
        r == Hi!Do(st, op)
        n == r.st
        N == Len(n.rows)
        readBad ==
            LET ids == {m.s : m \in Rng(ev.m)} IN
            Chk(ev.n = N /\ ev.tn >= N /\ (n.shr => ev.tn = N), "rows", <<"number of rows", ev.n, ev.tn, "expected", N>>)
            \cup Chk(N = 0 \/ (Len(ev.t) = N /\ \A k \in 1..N : F64Eq(ev.t[k], n.rows[k].t)), "rows", <<"times", ev.t>>)
            \cup Chk(ev.size = Cardinality(ids) /\ ids = (IF N = 0 THEN {} ELSE Rng(n.trk)), "track", <<"recorded signals", ids, ev.size, "tracked", n.trk>>)
            \cup (IF N = 0 THEN {} ELSE
                  UNION {IF m.s \notin Rng(n.trk) THEN {} ELSE
                         LET j == CHOOSE j \in DOMAIN n.trk : n.trk[j] = m.s IN
                         Chk(m.rows >= N /\ (n.shr => m.rows = N), "rows", <<"rows of signal", m.s, m.rows, "expected", N>>)
                         \cup Chk(Len(m.v) = N /\ \A k \in 1..N : VEq(m.v[k], n.rows[k].v[j]), "rows", <<"values of signal", m.s, m.v, "expected", [k \in 1..N |-> n.rows[k].v[j]]>>)
                         : m \in Rng(ev.m)})
        cols == UNION {{<<x, e>> : e \in 1..n.obj[x].sz} : x \in Rng(n.trk)}
        like(p, c) == /\ ev.head[p] = Heading(n.obj[c[1]], c[2])
                      /\ \A k \in 1..N : p <= Len(ev.lines[k]) /\ F64CloseTo(ev.lines[k][p], Column(n, c[1], c[2])[k], "1e-5")
        named(h) == {c \in cols : Heading(n.obj[c[1]], c[2]) = h}   \* signals may have the same name
        csvBad ==
            IF N = 0 THEN {} ELSE
            Chk(ev.file = 1 /\ ev.nl = 1, "csv", "no file, or its last line is not finished")
            \cup Chk(Len(ev.head) = 1 + Cardinality(cols) /\ ev.head # <<>> /\ ev.head[1] = "time"
                     /\ {Heading(n.obj[c[1]], c[2]) : c \in cols} = {ev.head[k] : k \in 2..Len(ev.head)}
                     /\ \A p \in 2..Len(ev.head) : Cardinality({q \in 2..Len(ev.head) : ev.head[q] = ev.head[p]}) = Cardinality(named(ev.head[p])), "csv", <<"headings", ev.head>>)
            \cup Chk(Len(ev.lines) = N, "csv", <<"number of lines", Len(ev.lines), "expected", N>>)
            \cup (IF Len(ev.lines) # N THEN {} ELSE
                  Chk(\A k \in 1..N : Len(ev.lines[k]) = Len(ev.head), "csv", "lines of different lengths")
                  \cup Chk(\A k \in 1..N : Len(ev.lines[k]) >= 1 /\ F64CloseTo(ev.lines[k][1], n.rows[k].t, "1e-5"), "csv", "time column")
                  \cup UNION {LET h == Heading(n.obj[c[1]], c[2])
                                 at == {k \in 2..Len(ev.head) : ev.head[k] = h}
                             IN IF at = {} THEN {} ELSE
                                Chk(\E p \in at : like(p, c), "csv", <<"columns", h, at, ev.lines, "expected", Column(n, c[1], c[2])>>)
                             : c \in cols}
                  \cup UNION {Chk(named(ev.head[p]) = {} \/ \E c \in named(ev.head[p]) : like(p, c), "csv", <<"column", p, ev.head[p], "is of no signal of that name">>)
                             : p \in 2..Len(ev.head)})
        b == Chk(ev.ok = r.ok, IF op.op \in {"track", "untrack"} THEN "track" ELSE IF op.op = "csv" THEN "csv" ELSE "rows",
                 <<op, IF r.ok = 1 THEN "was refused" ELSE "was not refused">>)
             \cup (IF ev.ok = 0 THEN {} ELSE IF op.op = "read" THEN readBad ELSE IF op.op = "csv" THEN csvBad ELSE {})
    IN R(n, b)

(***************************************************************************)
(* Steppers.  kinds: from stepper number to kind.                             *)
(***************************************************************************)
SeqAbsMax(v) == St!MaxAbs(v, 1, "0")
VSum(a, b, v0, h, d, m) == Len(a) = Len(b) /\ \A j \in DOMAIN a : F64SumOf(a[j], b[j], St!SizeOf(v0[j], h, d, m, j))
HEq(a, b) == F64SumOf(a, b, b)
DoStep(st, ev) ==
    LET op == ev.op
        kind == op.kind
        asp == IF kind = "rkf45" THEN "rkf45" ELSE "fixed"
        h == F64Sub(op.t1, op.t0)
        ns == Len(St!Tableau[kind].c)
        d == [j \in DOMAIN ev.calls |-> ev.calls[j].d]
        thr == "thr" \in DOMAIN op /\ op.thr # 0
        v4 == St!Result(kind, op.v0, h, d)
        err == St!ErrOf(op.v0, h, d)
        ratio == St!RatioOf(h, err)
        zero == \A j \in DOMAIN d : \A m \in DOMAIN d[j] : F64Eq(d[j][m], "0")
        noise == F64Mul("1e-14", St!MaxAbs([e \in DOMAIN op.v0 |-> St!SizeOf(op.v0[e], h, d, ns, e)], 1, "0"))
        b == Chk(VEq(ev.v0, op.v0), asp, <<"the initial state was changed to", ev.v0>>)
             \cup (IF thr THEN Chk(ev.ok = 0, "diag", "the error of the right-hand side was lost") ELSE
                   Chk(ev.ok = 1, asp, "the step failed")
                   \cup Chk(Len(ev.calls) = ns, asp, <<"number of stages", Len(ev.calls)>>)
                   \cup (IF ev.ok # 1 \/ Len(ev.calls) # ns THEN {} ELSE
                         UNION {Chk(F64Eq(ev.calls[j].t, St!StageTime(kind, j, op.t0, h)) \/ F64CloseTo(ev.calls[j].t, St!StageTime(kind, j, op.t0, h), "1e-12"), asp, <<"stage", j, "at", ev.calls[j].t>>)
                                \cup Chk(VSum(ev.calls[j].v, St!StageState(kind, j, op.v0, h, d), op.v0, h, d, j - 1), asp,
                                         <<"stage", j, "state", ev.calls[j].v, "expected", St!StageState(kind, j, op.v0, h, d)>>) : j \in 1..ns}
                         \cup Chk(VSum(ev.v1, v4, op.v0, h, d, ns), asp, <<"result", ev.v1, "expected", v4>>)
                         \cup (IF kind # "rkf45" THEN Chk(HEq(ev.nh, h), asp, <<"suggestion", ev.nh, "for", h>>)
                               ELSE Chk(IF zero THEN HEq(ev.nh, h) ELSE St!MayBe(ev.nh, h, err, noise, HEq), asp,
                                        <<"suggestion", ev.nh, "for", h, "ratio", ratio, "error", err>>))))
    IN R(st, b)

(***************************************************************************)
(* Diagnostics.  st: [parent, n] - blocks are named by their number, sub-      *)
(* models by minus theirs.                                                   *)
(***************************************************************************)
FailingSingles == {"conn_none", "conn_in2", "conn_out0", "conn_again", "conn_type", "add_bad", "bus_label", "bus_sub", "bus_index", "bus_op", "make_bad",
                   "reset_bad", "read_bad", "read_arr", "read_bool", "set_twice", "set_size", "hist_late", "hist_untrack_late", "hist_get",
                   "busmem_bad", "back", "loop_fast", "nostepper", "bad_limits", "zero_min"}
\* these fail with an error of the standard library
StdErrors == {"bus_index", "hist_get"}
\* within an operation that is traced
Traced == FailingSingles \ (StdErrors \cup {"make_bad", "reset_bad", "conn_type", "set_size", "hist_late", "hist_untrack_late", "read_arr"})
DiagState(h) ==
    LET subs == IF "subs" \in DOMAIN h THEN h.subs ELSE <<>>
        blks == IF "blks" \in DOMAIN h THEN h.blks ELSE <<>>
        ids == {0 - k : k \in 1..(Len(subs) + 1)} \cup DOMAIN blks
    IN [parent |-> [i \in ids |-> IF i > 0 THEN 0 - blks[i].par ELSE IF i = -1 THEN 0 ELSE 0 - subs[0 - i - 1].par],
        kind |-> [i \in DOMAIN blks |-> blks[i].k],
        eng |-> "", broken |-> FALSE]   \* the simulator in use failed before: what it does now is not specified
LibraryFault == {"verify", "read", "twice", "lookup", "type", "size", "connect"}
DoDiag(st, ev) ==
    LET op == ev.op
        single == op.op = "single"
        lib == ev.fired = 1 /\ ev.fk \in LibraryFault
        b == IF single
             THEN Chk((ev.ok = 0) = (op.k \in FailingSingles), "diag", <<"operation", op.k, IF ev.ok = 1 THEN "did not fail" ELSE "failed">>)
                  \cup (IF ev.ok = 0 /\ op.k \in FailingSingles \ StdErrors
                        THEN Chk(ev.lib = 1, "diag", <<"operation", op.k, "reported without its message">>) ELSE {})
                  \cup (IF ev.ok = 0 /\ op.k \in Traced THEN Chk(ev.frames >= 1 /\ ev.nofile = 0, "diag", <<"operation", op.k, "trace of", ev.frames, "frames", ev.nofile, "without a place">>) ELSE {})
             ELSE Chk(ev.fired = 0 \/ ev.ok = 0, "diag", <<"an error raised by block", ev.fb, "was lost">>)
                  \cup Chk(ev.fired = 1 \/ ev.ok = 1 \/ st.broken, "diag", "an error nobody raised")
                  \cup (IF ev.fired = 0 THEN {} ELSE
                        Chk(ev.fk # "user" \/ ev.same = 1, "diag", "the text of a user's exception was changed")
                        \cup Chk(ev.fk # "verify" \/ ev.has = 1, "diag", "the message of the error was lost")
                        \cup (IF ~lib THEN {} ELSE
                              Chk(ev.lib = 1, "diag", "a library error without its message")
                              \cup Chk(ev.frames >= 1 /\ ev.nofile = 0, "diag", <<"trace of", ev.frames, "frames", ev.nofile, "without a place">>)
                              \cup Chk(Dg!Chain(ev.path, st.parent), "diag", <<"the trace names", ev.path>>)
                              \cup Chk(ev.outer = 1, "diag", "the outermost operation named is not the simulator's")
                              \cup Chk(ev.fw # "act" \/ st.eng # "sim" \/ ev.path = Dg!Outwards(st.parent, ev.fb), "diag", <<"the trace names", ev.path, "not the blocks around", ev.fb>>)
                              \cup Chk(ev.fw # "act" \/ Dg!NamesFailing(ev.path, ev.fb), "diag", <<"the trace names", ev.path, "but the activation of", ev.fb, "failed">>)))
    IN R(IF single THEN st ELSE [st EXCEPT !.eng = IF op.op = "sim" THEN op.eng ELSE @, !.broken = IF op.op = "sim" THEN FALSE ELSE @ \/ ev.ok = 0], b)

(***************************************************************************)
(* The trace                                                                 *)
(***************************************************************************)
Start(h) == CASE h.f = "sig" -> Sg!Init0 [] h.f = "bus" -> Bu!Init0 [] h.f = "name" -> Nm!Init0 [] h.f = "tree" -> Tr!Init0
              [] h.f = "conn" -> Cn!Init0 [] h.f = "hist" -> Hi!Init0 [] h.f = "diag" -> DiagState(h) [] OTHER -> <<>>
Op(x, ev) ==
    CASE x.f = "sig" -> DoSig(x.st, ev) [] x.f = "bus" -> DoBus(x.st, ev) [] x.f = "name" -> DoName(x.st, ev) [] x.f = "tree" -> DoTree(x.st, ev)
      [] x.f = "conn" -> DoConn(x.st, ev) [] x.f = "hist" -> DoHist(x.st, ev) [] x.f = "step" -> DoStep(x.st, ev) [] x.f = "diag" -> DoDiag(x.st, ev)
Idle == [f |-> "", n |-> "", st |-> <<>>]
Apply(x, ev) ==
    CASE ev.e = "model" -> [s |-> [f |-> ev.f, n |-> ev.n, st |-> Start(ev)], b |-> {}]
      [] ev.e = "end" -> [s |-> Idle, b |-> {}]
      [] OTHER -> LET r == Op(x, ev) IN
                  [s |-> [x EXCEPT !.st = r.st], b |-> r.b \cup Chk(ev.tr = 0, "diag", <<"the call trace is not empty after", ev.op>>)]

Init == l = 1 /\ s = Idle /\ bad = {} /\ cnt = [model |-> 0, op |-> 0, refused |-> 0]
Next ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l]
           r == Apply(s, ev)
           nm == IF ev.e = "model" THEN ev.n ELSE s.n
       IN /\ s' = r.s
          /\ bad' = bad \cup {<<l, nm, x[1], x[2]>> : x \in {y \in r.b : Cardinality({z \in bad : z[3] = y[1]}) < 50}}
          /\ cnt' = [k \in DOMAIN cnt |-> cnt[k] + (IF k = ev.e THEN 1 ELSE IF k = "refused" /\ ev.e = "op" /\ "ok" \in DOMAIN ev /\ ev.ok = 0 THEN 1 ELSE 0)]
    /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Report == l = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([lines |-> Len(Trace), bad |-> bad, cnt |-> cnt])>>)
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
