------------------------------- MODULE Query -------------------------------
(* Probabilities of events and distributions of derived quantities.         *)
(*                                                                          *)
(* An expression is a record:                                               *)
(*   [k: "num", v], [k: "par", src, ax], [k: "op", o, a, b], [k: "fn", f, a]*)
(* where src is the index of the source of randomness (the joint            *)
(* distribution of a study at a time step, or of its hyper-parameters) and  *)
(* ax the component.  A source is [p: probabilities, x: values per          *)
(* component].  Different sources are independent.                          *)
EXTENDS Grid, Integers

Apply(f, a) ==
  CASE f = "sqrt" -> RSqrt(a)
    [] f = "exp"  -> RExp(a)
    [] f = "log"  -> RLn(a)
    [] f = "abs"  -> RAbs(a)
    [] f = "neg"  -> RNeg(a)
    [] f = "square" -> RMul(a, a)
Arith(o, a, b) ==
  CASE o = "+" -> RAdd(a, b)
    [] o = "-" -> RSub(a, b)
    [] o = "*" -> RMul(a, b)
    [] o = "/" -> RDiv(a, b)
    [] o = "^" -> RPow(a, b)
RECURSIVE Eval(_, _, _)
\* value of an expression if source i takes its pt[i]-th value
Eval(e, src, pt) ==
  CASE e.k = "num" -> R(e.v)
    [] e.k = "par" -> src[e.src].x[e.ax][pt[e.src]]
    [] e.k = "fn"  -> Apply(e.f, Eval(e.a, src, pt))
    [] e.k = "op"  -> Arith(e.o, Eval(e.a, src, pt), Eval(e.b, src, pt))

\* all combinations of values of the sources, and their probabilities
Shape(src) == [i \in 1..Len(src) |-> Len(src[i].p)]
PointOf(sh, k) == [i \in 1..Len(sh) |-> Coord(sh, i, k)]
Outcomes(src) ==
  LET sh == Shape(src) IN Mk(IProd(sh), LAMBDA k : PointOf(sh, k))
OutcomeProb(src, pt) == RProd([i \in 1..Len(src) |-> src[i].p[pt[i]]])

Holds(rel, a, b) ==
  CASE rel = ">"  -> RLt(b, a)
    [] rel = ">=" -> RLe(b, a)
    [] rel = "<"  -> RLt(a, b)
    [] rel = "<=" -> RLe(a, b)
    [] rel = "==" -> REq(a, b)

Probability(lhs, rel, rhs, src) ==
  LET pts == Outcomes(src)
  IN RSum([k \in 1..Len(pts) |->
       IF Holds(rel, Eval(lhs, src, pts[k]), Eval(rhs, src, pts[k]))
       THEN OutcomeProb(src, pts[k]) ELSE R(0)])

(* Known deviation "compound": the result of combining different sources is *)
(* taken as independent of everything else, also of these sources.  Values  *)
(* are [s: source, 0 if combined, -1 if constant; v: values; p].            *)
RECURSIVE Combine(_, _)
Combine(e, src) ==
  CASE e.k = "num" -> [s |-> -1, v |-> <<R(e.v)>>, p |-> <<R(1)>>]
    [] e.k = "par" -> [s |-> e.src, v |-> src[e.src].x[e.ax], p |-> src[e.src].p]
    [] e.k = "fn"  -> LET a == Combine(e.a, src) IN [a EXCEPT !.v = Mk(Len(a.v), LAMBDA i : Apply(e.f, a.v[i]))]
    [] e.k = "op"  ->
         LET a == TLCEval(Combine(e.a, src))
             b == TLCEval(Combine(e.b, src))
             m == Len(a.v)
             n == Len(b.v)
         IN IF a.s = -1 THEN [b EXCEPT !.v = Mk(n, LAMBDA i : Arith(e.o, a.v[1], b.v[i]))]
            ELSE IF b.s = -1 THEN [a EXCEPT !.v = Mk(m, LAMBDA i : Arith(e.o, a.v[i], b.v[1]))]
            ELSE IF a.s = b.s /\ a.s > 0 THEN [a EXCEPT !.v = Mk(m, LAMBDA i : Arith(e.o, a.v[i], b.v[i]))]
            ELSE [s |-> 0,
                  v |-> Mk(m*n, LAMBDA k : Arith(e.o, a.v[(k - 1) \div n + 1], b.v[k - n * ((k - 1) \div n)])),
                  p |-> Mk(m*n, LAMBDA k : RMul(a.p[(k - 1) \div n + 1], b.p[k - n * ((k - 1) \div n)]))]
CombinedProbability(lhs, rel, rhs, src) ==
  LET c == Combine([k |-> "op", o |-> "-", a |-> lhs, b |-> rhs], src)
  IN RSum([k \in 1..Len(c.v) |-> IF Holds(rel, c.v[k], R(0)) THEN c.p[k] ELSE R(0)])

\* distribution of an expression: values and probabilities of all outcomes
Derived(e, src) ==
  LET pts == Outcomes(src)
  IN [v |-> Mk(Len(pts), LAMBDA k : Eval(e, src, pts[k])),
      p |-> Mk(Len(pts), LAMBDA k : OutcomeProb(src, pts[k]))]
\* a binned distribution (values v, probabilities p, bin width w) represents the derived distribution d:
\* total probability and, up to the bin width, the distribution function agree
BinnedOk(v, p, d, tol) ==
  LET n == Len(v)
      w == IF n > 1 THEN RSub(v[2], v[1]) ELSE RSub(VMax(d.v), VMin(d.v))
      cdf(x) == RSum([k \in 1..Len(d.v) |-> IF RLe(d.v[k], x) THEN d.p[k] ELSE R(0)])
      below(x) == RSum([k \in 1..n |-> IF RLe(v[k], x) THEN R(p[k]) ELSE R(0)])
      slack == RMul(w, "1.001")
  IN /\ Len(p) = n /\ n >= 1
     /\ RClose(1, RSum(p), 0, tol)
     /\ \A k \in 1..n : RLe("-1e-9", p[k])
     /\ \A k \in 1..n :
          LET b == RSum([j \in 1..k |-> R(p[j])]) IN
          /\ RLe(b, RAdd(cdf(RAdd(v[k], slack)), tol))
          /\ RLe(cdf(RSub(v[k], slack)), RAdd(b, tol))
=============================================================================
