-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers for model checking, evaluated by the Java         *)
(* overrides in /verif/java; the bodies below are never evaluated.          *)
EXTENDS TLC
LOCAL Undef == Assert(FALSE, "Rat override not loaded")
RatAdd(x, y) == Undef
RatSub(x, y) == Undef
RatMul(x, y) == Undef
RatDiv(x, y) == Undef
RatFloor(x) == Undef
RatOf(n) == Undef
RatLt(x, y) == Undef
RatLe(x, y) == Undef
RatEq(x, y) == Undef
=============================================================================
