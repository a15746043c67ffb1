---------------------------- MODULE PooyaStepper ----------------------------
(***************************************************************************)
(* Explicit Runge-Kutta steppers, as Butcher tableaus (numerator, denominator *)
(* pairs, from the literature: Euler, classical RK4, Fehlberg 4(5)).          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS SAdd(_, _), SSub(_, _), SMul(_, _), SDiv(_, _), SOf(_), SLt(_, _)

Q(n, d) == SDiv(SOf(n), SOf(d))
Tableau ==
  [euler |-> [c |-> <<Q(0,1)>>, a |-> << <<>> >>, b |-> <<Q(1,1)>>],
   rk4 |-> [c |-> <<Q(0,1), Q(1,2), Q(1,2), Q(1,1)>>,
            a |-> << <<>>, <<Q(1,2)>>, <<Q(0,1), Q(1,2)>>, <<Q(0,1), Q(0,1), Q(1,1)>> >>,
            b |-> <<Q(1,6), Q(1,3), Q(1,3), Q(1,6)>>],
   rkf45 |-> [c |-> <<Q(0,1), Q(1,4), Q(3,8), Q(12,13), Q(1,1), Q(1,2)>>,
              a |-> << <<>>,
                       <<Q(1,4)>>,
                       <<Q(3,32), Q(9,32)>>,
                       <<Q(1932,2197), Q(-7200,2197), Q(7296,2197)>>,
                       <<Q(439,216), Q(-8,1), Q(3680,513), Q(-845,4104)>>,
                       <<Q(-8,27), Q(2,1), Q(-3544,2565), Q(1859,4104), Q(-11,40)>> >>,
              b |-> <<Q(25,216), Q(0,1), Q(1408,2565), Q(2197,4104), Q(-1,5), Q(0,1)>>]]
\* Fehlberg's fifth-order weights
B5 == <<Q(16,135), Q(0,1), Q(6656,12825), Q(28561,56430), Q(-9,50), Q(2,55)>>

\* v + h * sum of w[j] * d[j], element by element; d[j] are derivative vectors
RECURSIVE Comb(_, _, _, _)
Comb(w, d, j, e) == IF j > Len(w) THEN SOf(0) ELSE SAdd(SMul(w[j], d[j][e]), Comb(w, d, j + 1, e))
Advance(v, h, w, d) == [e \in DOMAIN v |-> SAdd(v[e], SMul(h, Comb(w, d, 1, e)))]

SAbs(x) == IF SLt(x, SOf(0)) THEN SSub(SOf(0), x) ELSE x

\* the size of the terms such a sum may have: of v and of 8 h d[j], j <= m (no weight is larger than 8.1)
RECURSIVE SizeOf(_, _, _, _, _)
SizeOf(v, h, d, m, e) == IF m = 0 THEN SAbs(v) ELSE SAdd(SAbs(SMul(SMul(SOf(9), h), d[m][e])), SizeOf(v, h, d, m - 1, e))

\* stage j of a step from (t0, v0) with size h, given the derivatives of the earlier stages
StageTime(kind, j, t0, h) == SAdd(t0, SMul(Tableau[kind].c[j], h))
StageState(kind, j, v0, h, d) == Advance(v0, h, Tableau[kind].a[j], d)
Result(kind, v0, h, d) == Advance(v0, h, Tableau[kind].b, d)

\* step-size suggestion
RECURSIVE MaxAbs(_, _, _)
MaxAbs(v, e, m) == IF e > Len(v) THEN m ELSE MaxAbs(v, e + 1, IF SLt(m, SAbs(v[e])) THEN SAbs(v[e]) ELSE m)
ErrOf(v0, h, d) ==
    LET v4 == Advance(v0, h, Tableau.rkf45.b, d)
        v5 == Advance(v0, h, B5, d)
    IN MaxAbs([e \in DOMAIN v0 |-> SSub(v4[e], v5[e])], 1, SOf(0))
\* ratio 0.001 h / (2 e) and the suggestion
RatioOf(h, e) == IF SLt(SOf(0), e) THEN SDiv(SMul(SDiv(SOf(1), SOf(1000)), h), SMul(SOf(2), e)) ELSE SOf(1)
LowRatio == Q(81, 256)        \* 0.75^4
HighRatio == Q(81, 16)        \* 1.5^4
\* is nh what some error between e - n and e + n leads to? (n: what rounding may do to it)
MayBe(nh, h, e, n, Is(_, _)) ==
    LET lo == RatioOf(h, SAdd(e, n))
        hid == ~SLt(n, e)                      \* the error may vanish altogether
        hi == IF hid THEN SOf(1) ELSE RatioOf(h, SSub(e, n))
        slack == SAdd(SOf(1), Q(1, 10000000))
    IN \/ Is(nh, SDiv(h, SOf(2))) /\ SLt(lo, SMul(LowRatio, slack))
       \/ Is(nh, SMul(SOf(2), h)) /\ (hid \/ SLt(HighRatio, SMul(hi, slack)))
       \/ Is(nh, h) /\ (hid \/ (~SLt(SMul(HighRatio, slack), lo) /\ ~SLt(SMul(hi, slack), LowRatio)))
Suggest(h, s) == IF SLt(s, LowRatio) THEN SDiv(h, SOf(2))
                 ELSE IF SLt(HighRatio, s) THEN SMul(SOf(2), h) ELSE h
=============================================================================
