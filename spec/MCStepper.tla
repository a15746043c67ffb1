----------------------------- MODULE MCStepper -----------------------------
(***************************************************************************)
(* The Butcher tableaus of PooyaStepper are what they claim to be (C15,      *)
(* C16): the stage times are the row sums and the weights satisfy all        *)
(* Runge-Kutta order conditions, in exact rational arithmetic: Euler to      *)
(* order 1, RK4 to order 4, RKF45 to order 4 with the propagated and to      *)
(* order 5 with the comparison weights.  Then small problems with known      *)
(* solutions, and the step-size suggestion at and around its thresholds.     *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets
INSTANCE PooyaStepper WITH SAdd <- RatAdd, SSub <- RatSub, SMul <- RatMul, SDiv <- RatDiv, SOf <- RatOf, SLt <- RatLt

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN RatOf(0) ELSE RatAdd(SumTo(f, n - 1), f[n])
Dot(b, v) == SumTo([j \in DOMAIN v |-> RatMul(b[j], v[j])], Len(v))
Times(v, w) == [j \in DOMAIN v |-> RatMul(v[j], w[j])]
\* the matrix a applied to a vector over the stages
App(T, v) == [j \in DOMAIN T.a |-> SumTo([m \in DOMAIN T.a[j] |-> RatMul(T.a[j][m], v[m])], Len(T.a[j]))]
Ones(T) == [j \in DOMAIN T.c |-> RatOf(1)]
Is(x, n, d) == RatEq(x, Q(n, d))

RowSums(T) == \A j \in DOMAIN T.c : RatEq(App(T, Ones(T))[j], T.c[j])
Order1(T, b) == Is(Dot(b, Ones(T)), 1, 1)
Order2(T, b) == Is(Dot(b, T.c), 1, 2)
Order3(T, b) == LET c == T.c IN Is(Dot(b, Times(c, c)), 1, 3) /\ Is(Dot(b, App(T, c)), 1, 6)
Order4(T, b) == LET c == T.c c2 == Times(c, c) ac == App(T, c) IN
    /\ Is(Dot(b, Times(c, c2)), 1, 4) /\ Is(Dot(b, Times(c, ac)), 1, 8)
    /\ Is(Dot(b, App(T, c2)), 1, 12) /\ Is(Dot(b, App(T, ac)), 1, 24)
Order5(T, b) == LET c == T.c c2 == Times(c, c) ac == App(T, c) IN
    /\ Is(Dot(b, Times(c2, c2)), 1, 5) /\ Is(Dot(b, Times(c2, ac)), 1, 10) /\ Is(Dot(b, Times(c, App(T, c2))), 1, 15)
    /\ Is(Dot(b, Times(c, App(T, ac))), 1, 30) /\ Is(Dot(b, Times(ac, ac)), 1, 20) /\ Is(Dot(b, App(T, Times(c, c2))), 1, 20)
    /\ Is(Dot(b, App(T, Times(c, ac))), 1, 40) /\ Is(Dot(b, App(T, App(T, c2))), 1, 60) /\ Is(Dot(b, App(T, App(T, ac))), 1, 120)

\* y' = f(t, y), one step; stages evaluated one after the other
RECURSIVE Stages(_, _, _, _, _, _)
Stages(kind, f(_, _), t0, v0, h, d) ==
    IF Len(d) = Len(Tableau[kind].c) THEN d
    ELSE LET j == Len(d) + 1 IN Stages(kind, f, t0, v0, h, Append(d, f(StageTime(kind, j, t0, h), StageState(kind, j, v0, h, d))))
Step(kind, f(_, _), t0, v0, h) == Result(kind, v0, h, Stages(kind, f, t0, v0, h, <<>>))
\* polynomials in t are integrated exactly up to the order: y' = n t^(n-1)
Pow(t, k) == IF k = 0 THEN RatOf(1) ELSE IF k = 1 THEN t ELSE IF k = 2 THEN RatMul(t, t) ELSE RatMul(t, RatMul(t, t))
Poly(n, t) == <<RatMul(RatOf(n), Pow(t, n - 1))>>
Exact(kind, n, t0, h) ==
    LET t1 == RatAdd(t0, h) IN
    RatEq(Step(kind, LAMBDA t, v : Poly(n, t), t0, << RatMul(Pow(t0, n - 1), t0) >>, h)[1], RatMul(Pow(t1, n - 1), t1))

VARIABLES x
Init == x \in [n : 1..4, t0 : {0, 1, -3}, h : {1, 2, 5}]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

H == RatDiv(RatOf(x.h), RatOf(4))
T0 == RatDiv(RatOf(x.t0), RatOf(2))
Tableaus == /\ RowSums(Tableau.euler) /\ Order1(Tableau.euler, Tableau.euler.b)
            /\ LET T == Tableau.rk4 IN RowSums(T) /\ Order1(T, T.b) /\ Order2(T, T.b) /\ Order3(T, T.b) /\ Order4(T, T.b)
            /\ LET T == Tableau.rkf45 IN
               /\ RowSums(T) /\ Order1(T, T.b) /\ Order2(T, T.b) /\ Order3(T, T.b) /\ Order4(T, T.b)
               /\ Order1(T, B5) /\ Order2(T, B5) /\ Order3(T, B5) /\ Order4(T, B5) /\ Order5(T, B5) /\ ~Order5(T, T.b)
PolynomialsExact == /\ x.n <= 1 => Exact("euler", x.n, T0, H)
                    /\ Exact("rk4", x.n, T0, H) /\ Exact("rkf45", x.n, T0, H)
\* half below 0.75^4, double above 1.5^4, otherwise the same; nothing to estimate counts as 1
Suggestions == LET e(r) == RatDiv(RatDiv(H, RatOf(1000)), RatMul(RatOf(2), r))
                   eps == Q(1, 1000000)
                   s(r) == Suggest(H, RatioOf(H, e(r))) IN
    /\ RatEq(s(RatSub(LowRatio, eps)), RatDiv(H, RatOf(2))) /\ RatEq(s(LowRatio), H) /\ RatEq(s(RatAdd(LowRatio, eps)), H)
    /\ RatEq(s(RatSub(HighRatio, eps)), H) /\ RatEq(s(HighRatio), H) /\ RatEq(s(RatAdd(HighRatio, eps)), RatMul(RatOf(2), H))
    /\ RatEq(Suggest(H, RatioOf(H, RatOf(0))), H)
=============================================================================
