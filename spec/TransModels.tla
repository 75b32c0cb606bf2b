---------------------------- MODULE TransModels ----------------------------
(* Transition models: how a parameter distribution changes from the time    *)
(* step t to the next one (Forward), and how the message of later data is   *)
(* passed back over the same transition (Backward).                         *)
(*                                                                          *)
(* A transition model is a record [type, hp, subs, target, f]; hp is the    *)
(* sequence of its own hyper-parameters, each a record                      *)
(*   [name, v (values), scalar, all, prior, (kind: "bp"/"cp")].             *)
(* Compile fixes the hyper-parameter values and a grid and turns the        *)
(* random walks into matrices.                                              *)
(*                                                                          *)
(* `dev` is the set of known deviations of the implementation from the      *)
(* ideal transition (see /verif/known_findings.txt); it is empty in the     *)
(* specification proper.                                                    *)
EXTENDS ObsModels, SequencesExt

(* ---- hyper-parameters of a (nested) transition model: sub-models first -- *)
RECURSIVE FlatHP(_)
FlatHP(tm) == Concat([i \in 1..Len(tm.subs) |-> FlatHP(tm.subs[i])]) \o tm.hp
HPNames(tm) == LET h == FlatHP(tm) IN [i \in 1..Len(h) |-> h[i].name]
RECURSIVE SetHP(_, _)
\* the model with the values x (one per hyper-parameter, in the order of FlatHP)
SetHP(tm, x) ==
  LET count(j) == Len(FlatHP(tm.subs[j]))
      RECURSIVE before(_)
      before(j) == IF j = 1 THEN 0 ELSE before(j - 1) + count(j - 1)
      nsub == before(Len(tm.subs) + 1)
      sub(j) == SetHP(tm.subs[j], SubSeq(x, before(j) + 1, before(j) + count(j)))
      own(i) == [tm.hp[i] EXCEPT !.v = <<x[nsub + i]>>, !.scalar = TRUE, !.all = FALSE]
  IN TLCEval([tm EXCEPT !.subs = [j \in 1..Len(tm.subs) |-> sub(j)],
                        !.hp = [i \in 1..Len(tm.hp) |-> own(i)]])

(* ---- random walks ---- *)
RECURSIVE Reflect(_, _)
\* mirror images of the grid continue it at both ends (edge values are repeated)
Reflect(i, n) == IF i < 1 THEN Reflect(1 - i, n) ELSE IF i > n THEN Reflect(2 * n + 1 - i, n) ELSE i
\* Gaussian weights for steps of at most 4 standard deviations
GaussRadius(sigma) == RFloor(RAdd(RMul(4, sigma), "0.5"))
GaussMatrix(n, sigma) ==
  LET r == GaussRadius(sigma)
      raw == Mk(2 * r + 1, LAMBDA k : RExp(RNeg(RDiv(Sq(R(k - r - 1)), RMul(2, Sq(sigma))))))
      w == VNorm(raw)
  IN Mk(n, LAMBDA i : Mk(n, LAMBDA j :
        RSum([k \in 1..(2 * r + 1) |-> IF Reflect(i + k - r - 1, n) = j THEN w[k] ELSE R(0)])))
\* symmetric alpha-stable steps (characteristic function exp(-|c w|^alpha)), leaving the grid is excluded
StableMatrix(n, c, alpha) ==
  LET H == (3 * n) \div 2
      N == 2 * H
      F == [m \in 0..H |-> IF m = 0 THEN R(1)
                           ELSE RExp(RNeg(RPow(RAbs(RDiv(RMul(RMul(c, RPi), m), H)), alpha)))]
      FE == TLCEval(F)
      kern(k) == RDiv(RAdd(RAdd(FE[0], RMul(FE[H], IF k % 2 = 0 THEN 1 ELSE -1)),
                           RMul(2, RSum([m \in 1..(H - 1) |->
                               RMul(FE[m], RCos(RDiv(RMul(RMul(2, RPi), m * k), N)))]))), N)
      K == TLCEval([k \in 0..(n - 1) |-> kern(k)])
  IN Mk(n, LAMBDA i : Mk(n, LAMBDA j : K[IF i < j THEN j - i ELSE i - j]))
\* correlated Gaussian steps of two parameters, at most 3 (rounded up) standard deviations
RCeil(x) == -RFloor(RNeg(x))
BivariateMatrix(G, s1, s2, rho) ==
  LET r1 == 3 * RCeil(s1)
      r2 == 3 * RCeil(s2)
      q == RSub(1, Sq(R(rho)))
      w(a, b) == IF a < -r1 \/ a > r1 \/ b < -r2 \/ b > r2 THEN R(0)
                 ELSE LET u == RDiv(a, s1)
                          v == RDiv(b, s2)
                      IN RExp(RNeg(RDiv(RAdd(RSub(Sq(u), RMul(RMul(2, rho), RMul(u, v))), Sq(v)), RMul(2, q))))
      W == TLCEval([a \in (1 - G.shape[1])..(G.shape[1] - 1) |->
                      [b \in (1 - G.shape[2])..(G.shape[2] - 1) |-> w(a, b)]])
      c(k, a) == Coord(G.shape, a, k)
  IN Mk(G.n, LAMBDA k : Mk(G.n, LAMBDA l : W[c(k, 1) - c(l, 1)][c(k, 2) - c(l, 2)]))

(* ---- deterministic changes: the distribution moves by d grid points ----- *)
Clip(i, n) == IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i
ShiftInt(v, d) == [i \in 1..Len(v) |-> v[Clip(i - d, Len(v))]]
\* cubic spline interpolation of a sequence that continues with its edge values
SplineCoefs(s) ==   \* solves (c[i-1] + 4 c[i] + c[i+1]) / 6 = s[i], with c[0] = c[1] and c[n+1] = c[n]
  LET n == Len(s)
      diag(i) == IF i = 1 \/ i = n THEN 5 ELSE 4
      down == FoldLeft(LAMBDA acc, i :
                 IF i = 1 THEN <<[e |-> RDiv(1, diag(1)), d |-> RDiv(RMul(6, s[1]), diag(1))]>>
                 ELSE LET den == RSub(diag(i), acc[i-1].e)
                      IN Append(acc, [e |-> RDiv(1, den), d |-> RDiv(RSub(RMul(6, s[i]), acc[i-1].d), den)]),
                 <<>>, [i \in 1..n |-> i])
      up == FoldLeft(LAMBDA acc, i :
                 LET k == n - i + 1 IN
                 IF i = 1 THEN <<down[n].d>>
                 ELSE <<RSub(down[k].d, RMul(down[k].e, acc[1]))>> \o acc,
                 <<>>, [i \in 1..n |-> i])
  IN up
NonNegative(v) == Mk(Len(v), LAMBDA i : IF RLt(v[i], 0) THEN R(0) ELSE v[i])   \* interpolation may overshoot
Pad == 12
ShiftReal(v, d) ==
  LET n == Len(v)
      padded == [i \in 1..(n + 2 * Pad) |-> v[Clip(i - Pad, n)]]
      c == SplineCoefs(TLCEval(padded))
      L == Len(c)
      at(u) == LET uu == RMax(1, RMin(u, L))
                   k == RFloor(uu)
                   f == RSub(uu, k)
                   g == RSub(1, f)
                   w0 == RDiv(RPow(g, 3), 6)
                   w1 == RDiv(RAdd(RSub(RMul(3, RPow(f, 3)), RMul(6, Sq(f))), 4), 6)
                   w2 == RDiv(RAdd(RAdd(RSub(RMul(3, Sq(f)), RMul(3, RPow(f, 3))), RMul(3, f)), 1), 6)
                   w3 == RDiv(RPow(f, 3), 6)
               IN RSum(<<RMul(w0, c[Clip(k - 1, L)]), RMul(w1, c[Clip(k, L)]),
                         RMul(w2, c[Clip(k + 1, L)]), RMul(w3, c[Clip(k + 2, L)])>>)
  IN Mk(n, LAMBDA i : at(RSub(i + Pad, d)))
\* numbers within rounding errors of an integer are integers
NearInt(d) == RClose(RFloor(RAdd(d, "0.5")), d, 0, "1e-9")
Shift(v, d) == IF NearInt(d) THEN ShiftInt(v, RFloor(RAdd(d, "0.5"))) ELSE ShiftReal(v, d)
\* functions of time that scenarios refer to by name
TimeFunction(f, t, x) ==
  CASE f = "linear"    -> RMul(x[1], t)
    [] f = "quadratic" -> RAdd(RMul(x[1], Sq(R(t))), RMul(x[2], t))
    [] f = "step"      -> IF RLt(t, x[2]) THEN R(0) ELSE R(x[1])

(* ---- compiled models ---- *)
RECURSIVE Compile(_, _, _)
Compile(tm, names, G) ==
  LET v(i) == tm.hp[i].v[1]
      axis == IndexOf(names, tm.target)
      n == G.shape[axis]
      lc == G.lc[axis]
      base == [type |-> tm.type, axis |-> 0, subs |-> <<>>, v |-> [i \in 1..Len(tm.hp) |-> R(v(i))],
               f |-> tm.f, mat |-> <<>>, cp |-> <<>>, lc |-> R(1), limit |-> R(0)]
  IN TLCEval(
     CASE tm.type \in {"static", "independent", "changepoint"} -> base
       [] tm.type = "grw" ->
            LET s == RDiv(v(1), lc) IN
            IF RLt(0, s) THEN [base EXCEPT !.axis = axis, !.mat = GaussMatrix(n, s)]
            ELSE [base EXCEPT !.type = "static"]
       [] tm.type = "stable" -> [base EXCEPT !.axis = axis, !.mat = StableMatrix(n, RDiv(v(1), lc), v(2))]
       [] tm.type = "bivariate" ->
            [base EXCEPT !.mat = BivariateMatrix(G, RDiv(v(1), G.lc[1]), RDiv(v(2), G.lc[2]), v(3))]
       [] tm.type \in {"regime", "notequal"} -> [base EXCEPT !.limit = RMul(RPow(10, v(1)), G.vol)]
       [] tm.type = "det" -> [base EXCEPT !.axis = axis, !.lc = lc]
       [] tm.type = "combined" ->
            [base EXCEPT !.subs = [j \in 1..Len(tm.subs) |-> Compile(tm.subs[j], names, G)]]
       [] tm.type = "serial" ->
            [base EXCEPT !.subs = [j \in 1..Len(tm.subs) |-> Compile(tm.subs[j], names, G)],
                         !.cp = [i \in 1..Len(tm.hp) |-> tm.hp[i].kind = "cp"]])

\* number of the segment of a serial model that the transition right after time t belongs to
SegmentAt(m, t) == 1 + Cardinality({i \in 1..Len(m.v) : RLe(m.v[i], t)})
SegmentStart(m, k) == IF k > 1 THEN m.v[k - 1] ELSE R(0)
ResetAt(m, t) == \E i \in 1..Len(m.v) : m.cp[i] /\ REq(m.v[i], t)

Raise(p, limit) == Mk(Len(p), LAMBDA k : RMax(p[k], limit))
Invert(p) == LET mx == VMax(p)
                 \* differences within rounding errors are none
                 d == Mk(Len(p), LAMBDA k : IF RLt(RSub(mx, p[k]), RMul("1e-12", mx)) THEN R(0) ELSE RSub(mx, p[k]))
             IN IF RLt(0, RSum(d)) THEN VNorm(d) ELSE d
Drift(m, t, off) ==    \* shift in units of the grid spacing
  RDiv(RSub(TimeFunction(m.f, RSub(RAdd(t, 1), off), m.v), TimeFunction(m.f, RSub(t, off), m.v)), m.lc)

(* ctx: [G, prior (normalised: sums to one), dev] *)
\* distribution after a change-point
Reset(ctx) == IF "resetscale" \in ctx.dev THEN VScale(ctx.G.vol, ctx.prior) ELSE ctx.prior
RECURSIVE Forward(_, _, _, _, _)
Forward(m, ctx, p, t, off) ==
  LET G == ctx.G
      reset == Reset(ctx) IN
  CASE m.type = "static" -> p
    [] m.type = "independent" -> ctx.prior
    [] m.type = "changepoint" -> IF REq(m.v[1], t) THEN reset ELSE p
    [] m.type = "grw" -> AlongAxis(G.shape, p, m.axis, LAMBDA line : MatVec(m.mat, line))
    [] m.type = "stable" -> VNorm(AlongAxis(G.shape, p, m.axis, LAMBDA line : MatVec(m.mat, line)))
    [] m.type = "bivariate" -> VNorm(MatVec(m.mat, p))
    [] m.type = "regime" -> VNorm(Raise(p, m.limit))
    [] m.type = "notequal" -> VNorm(Raise(Invert(p), m.limit))
    [] m.type = "det" ->
         LET d == Drift(m, t, off) IN VNorm(NonNegative(AlongAxis(G.shape, p, m.axis, LAMBDA line : Shift(line, d))))
    [] m.type = "combined" -> FoldLeft(LAMBDA q, s : Forward(s, ctx, q, t, off), p, m.subs)
    [] m.type = "serial" ->
         IF ResetAt(m, t) THEN reset
         ELSE LET k == SegmentAt(m, t) IN Forward(m.subs[k], ctx, p, t, SegmentStart(m, k))

\* message of later data, passed back over the transition right after time t
RECURSIVE Backward(_, _, _, _, _)
Backward(m, ctx, q, t, off) ==
  LET G == ctx.G IN
  CASE m.type = "independent" -> Ones(G)
    [] m.type = "changepoint" -> IF REq(m.v[1], t) THEN Ones(G) ELSE q
    [] m.type = "det" ->
         LET d == RNeg(Drift(m, t, off)) IN VNorm(NonNegative(AlongAxis(G.shape, q, m.axis, LAMBDA line : Shift(line, d))))
    [] m.type = "combined" ->
         FoldLeft(LAMBDA r, s : Backward(s, ctx, r, t, off), q,
                  IF "combinedback" \in ctx.dev THEN m.subs ELSE Reverse(m.subs))
    [] m.type = "serial" ->
         IF ResetAt(m, t) THEN (IF "serialback" \in ctx.dev THEN Reset(ctx) ELSE Ones(G))
         ELSE LET k == SegmentAt(m, t) IN Backward(m.subs[k], ctx, q, t, SegmentStart(m, k))
    [] OTHER -> Forward(m, ctx, q, t, off)
=============================================================================
