------------------------------ MODULE MCReals ------------------------------
(* The accelerated sequence operators agree with their TLA+ definitions.    *)
EXTENDS RealNumbers, TLC
Vals == {R(0), R("1/2"), R("-3/7"), R(2), R("0.1")}
RECURSIVE DSum(_)
DSum(s) == IF s = <<>> THEN R(0) ELSE RAdd(Head(s), DSum(Tail(s)))
RECURSIVE DProd(_)
DProd(s) == IF s = <<>> THEN R(1) ELSE RMul(Head(s), DProd(Tail(s)))
VARIABLES a, b
Init == a \in [1..3 -> Vals] /\ b \in [1..3 -> Vals]
Next == UNCHANGED <<a, b>>
Same(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i] = y[i]
Inv ==
  /\ RSum(a) = DSum(a)
  /\ RProd(a) = DProd(a)
  /\ Same(VMul(a, b), [i \in 1..3 |-> RMul(a[i], b[i])])
  /\ Same(VAdd(a, b), [i \in 1..3 |-> RAdd(a[i], b[i])])
  /\ Same(VScale(a[1], b), [i \in 1..3 |-> RMul(a[1], b[i])])
  /\ VDot(a, b) = DSum([i \in 1..3 |-> RMul(a[i], b[i])])
  /\ Same(MatVec(<<a, b>>, a), <<VDot(a, a), VDot(b, a)>>)
  /\ VClose(a, b, 0, 0) = (\A i \in 1..3 : REq(a[i], b[i]))
  \* field laws
  /\ RAdd(a[1], a[2]) = RAdd(a[2], a[1])
  /\ RMul(a[1], RAdd(a[2], a[3])) = RAdd(RMul(a[1], a[2]), RMul(a[1], a[3]))
  /\ ~REq(a[1], 0) => RMul(a[1], RDiv(1, a[1])) = R(1)
  /\ RLt(a[1], a[2]) => RLt(0, RSub(a[2], a[1]))
  /\ RLt(0, a[1]) => RClose(RExp(RLn(a[1])), a[1], "1e-13", 0)
  /\ RLt(0, a[1]) => RClose(RMul(RSqrt(a[1]), RSqrt(a[1])), a[1], "1e-30", 0)
=============================================================================
