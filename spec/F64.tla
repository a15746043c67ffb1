------------------------------- MODULE F64 -------------------------------
(* Numbers of the implementation: IEEE-754 binary64 values, represented by  *)
(* decimal strings.  TLC evaluates these operators with the Java overrides  *)
(* in /verif/java (TLC's own integers are 32-bit); the bodies below are     *)
(* never evaluated.                                                         *)
EXTENDS TLC
LOCAL Undef == Assert(FALSE, "F64 override not loaded")
F64Add(x, y) == Undef
F64Sub(x, y) == Undef
F64Mul(x, y) == Undef
F64Div(x, y) == Undef
F64Floor(x) == Undef
F64Of(n) == Undef          \* the number of an integer
F64Lt(x, y) == Undef
F64Le(x, y) == Undef
F64Eq(x, y) == Undef       \* same number
F64Close(x, y) == Undef    \* same number up to rounding (1e-9)
F64CloseTo(x, y, tol) == Undef
F64SumOf(x, y, z) == Undef    \* same number up to the rounding of a short sum whose terms are together as large as z
F64CloseBy(x, y, z) == Undef  \* same number up to the rounding of operands as large as z
F64Finite(x) == Undef
=============================================================================
