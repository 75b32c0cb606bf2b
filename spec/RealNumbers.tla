---------------------------- MODULE RealNumbers ----------------------------
(* Real numbers for TLC.                                                    *)
(*                                                                          *)
(* TLC knows 32-bit integers only.  The scalar operators of this module are *)
(* evaluated by the Java class blreal.RealOps (see /verif/java): a number   *)
(* is an exact rational while it is small, and has 40 significant decimal   *)
(* digits otherwise, so that the model checking modules (MC*.tla) compute   *)
(* exactly and the trace modules far more precisely than the               *)
(* implementation's double precision.  Integers and numerals in strings     *)
(* ("0.25", "1/3", "nan", "-inf") are accepted wherever a number is.        *)
(*                                                                          *)
(* The sequence operators have ordinary TLA+ definitions; the Java versions *)
(* only accelerate them (MCReals checks that both agree).                   *)
EXTENDS Naturals, Sequences

Unevaluated == CHOOSE x : x \notin {}

R(a)         == Unevaluated   \* the number denoted by an integer, a numeral or a number
RAdd(a, b)   == Unevaluated   \* a + b
RSub(a, b)   == Unevaluated   \* a - b
RMul(a, b)   == Unevaluated   \* a * b
RDiv(a, b)   == Unevaluated   \* a / b   (IEEE rules for division by zero)
RNeg(a)      == Unevaluated   \* -a
RAbs(a)      == Unevaluated   \* |a|
RLt(a, b)    == Unevaluated   \* a < b   (FALSE if a or b is NaN)
RLe(a, b)    == Unevaluated   \* a <= b
REq(a, b)    == Unevaluated   \* a = b
RIsNan(a)    == Unevaluated
RIsFinite(a) == Unevaluated
RExp(a)      == Unevaluated
RLn(a)       == Unevaluated
RCos(a)      == Unevaluated
RPi          == Unevaluated
RSqrt(a)     == Unevaluated
RPow(a, b)   == Unevaluated   \* a^b
RFact(k)     == Unevaluated   \* k!  (k a natural number)
RFloor(a)    == Unevaluated   \* largest integer <= a, as a TLC integer
RIsInt(a)    == Unevaluated
RClose(a, b, rtol, atol) == Unevaluated  \* |a-b| <= atol + rtol*|a|; NaN/Inf only close to themselves
RShow(a)     == Unevaluated   \* a as a string with 17 digits
RIsNumeral(a) == Unevaluated

RMax(a, b) == IF RLt(a, b) THEN R(b) ELSE R(a)
RMin(a, b) == IF RLt(b, a) THEN R(b) ELSE R(a)
RGt(a, b)  == RLt(b, a)
RGe(a, b)  == RLe(b, a)

(* ---- sequences of numbers ---- *)
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN R(0) ELSE RAdd(Head(s), RSum(Tail(s)))
RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN R(1) ELSE RMul(Head(s), RProd(Tail(s)))

VR(a)        == [i \in 1..Len(a) |-> R(a[i])]
VMul(a, b)   == [i \in 1..Len(a) |-> RMul(a[i], b[i])]
VAdd(a, b)   == [i \in 1..Len(a) |-> RAdd(a[i], b[i])]
VScale(c, a) == [i \in 1..Len(a) |-> RMul(c, a[i])]
VDot(a, b)   == RSum([i \in 1..Len(a) |-> RMul(a[i], b[i])])
MatVec(m, a) == [i \in 1..Len(m) |-> VDot(m[i], a)]
VClose(a, b, rtol, atol) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : RClose(a[i], b[i], rtol, atol)

\* a sequence scaled such that its elements sum up to one
VNorm(a) == VScale(RDiv(1, RSum(a)), a)
VConst(n, c) == [i \in 1..n |-> c]
RMean(a) == RDiv(RSum(a), Len(a))

RECURSIVE VMax(_)
VMax(a) == IF Len(a) = 1 THEN R(a[1]) ELSE RMax(a[1], VMax(Tail(a)))
RECURSIVE VMin(_)
VMin(a) == IF Len(a) = 1 THEN R(a[1]) ELSE RMin(a[1], VMin(Tail(a)))
=============================================================================
