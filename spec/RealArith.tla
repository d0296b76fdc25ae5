------------------------------ MODULE RealArith ------------------------------
(* Real arithmetic for trace validation.  A real number is an IEEE-754 double    *)
(* held in a TLC value of its own kind; the operators below are evaluated by     *)
(* java/RealOverrides.java.  Their TLA+ bodies are placeholders that are never   *)
(* evaluated.  Every operator also accepts an integer where a real is expected.  *)
(* Nothing about agnpy is defined in Java: all formulas are TLA+ (Physics.tla    *)
(* and below).                                                                   *)
EXTENDS Integers, Sequences, TLC
LOCAL Undef == Assert(FALSE, "RealOverrides is not on the class path")

R(s) == Undef               \* literal: R("1.5e-3"), R("inf"), R("nan")
a \oplus b == Undef         \* a + b
a \ominus b == Undef        \* a - b
a \otimes b == Undef        \* a * b
a \oslash b == Undef        \* a / b
a ^^ b == Undef             \* a to the power b
a \prec b == Undef          \* a < b
a \preceq b == Undef
a \succ b == Undef
a \succeq b == Undef
REq(a, b) == Undef          \* numeric equality (FALSE on NaN)
IsReal(a) == Undef          \* a is a real or an integer
IsSeq(a) == Undef
RNeg(a) == Undef
RAbs(a) == Undef
RExp(a) == Undef
RExpm1(a) == Undef
RLn(a) == Undef
RLog10(a) == Undef
RSqrt(a) == Undef
RSin(a) == Undef
RCos(a) == Undef
RAcos(a) == Undef
RAtan2(a, b) == Undef
RMin(a, b) == Undef
RMax(a, b) == Undef
IsNaN(a) == Undef
IsFin(a) == Undef
ToReal(a) == Undef
RFloor(a) == Undef          \* integer part, as an Int
RSum(s) == Undef            \* sum of a sequence of reals
Tup(s) == Undef             \* explicit sequence for a function on 1..n
JsonTrace(file) == Undef    \* ints -> Int, other numbers -> reals, arrays -> sequences, objects -> records
=============================================================================
