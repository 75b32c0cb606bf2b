----------------------------- MODULE ObsModels -----------------------------
(* Observation models: likelihood of a data segment for every point of the  *)
(* parameter grid, and prior densities.                                     *)
(*                                                                          *)
(* An observation model is a record                                         *)
(*   [type, names, grids, prior, (dist, fixed, pname, f, c)]                *)
(* A data segment is a sequence of SegLen(om) observations; an observation  *)
(* is a number, or a sequence of numbers for multi-dimensional data.        *)
EXTENDS Grid

SegLen(om) == IF om.type \in {"ar1", "scaledar1"} THEN 2 ELSE 1
\* several observations of one time step are independent observations?
Multiplies(om) == om.type \notin {"gaussianmean", "numpy"}

(* ---- probability (density) functions ---- *)
Sq(x) == RMul(x, x)
NormPdf(x, mu, s) ==
  RDiv(RExp(RNeg(RDiv(Sq(RSub(x, mu)), RMul(2, Sq(s))))),
       RSqrt(RMul(RMul(2, RPi), Sq(s))))
LaplacePdf(x, mu, b) ==
  RDiv(RExp(RNeg(RDiv(RAbs(RSub(x, mu)), b))), RMul(2, b))
\* 0^0 = 1
PowN(x, k) == IF k = 0 THEN R(1) ELSE RPow(x, k)
PoissonPmf(k, lam) ==
  RDiv(RMul(PowN(lam, k), RExp(RNeg(lam))), RFact(k))
BernoulliPmf(x, p) ==
  IF RLt(p, 0) \/ RLt(1, p) THEN R(0)
  ELSE IF REq(x, 0) THEN RSub(1, p) ELSE R(p)
ExponPdf(x, loc, scale) ==
  LET z == RDiv(RSub(x, loc), scale)
  IN IF RLt(z, 0) THEN R(0) ELSE RDiv(RExp(RNeg(z)), scale)
UniformPdf(x, loc, scale) ==
  IF RLe(loc, x) /\ RLe(x, RAdd(loc, scale)) THEN RDiv(1, scale) ELSE R(0)
GammaPdf2(x, theta) ==     \* Gamma distribution with shape 2
  IF RLt(x, 0) THEN R(0)
  ELSE RDiv(RMul(x, RExp(RNeg(RDiv(x, theta)))), Sq(theta))
BinomPmf(k, n, p) ==
  IF k > n THEN R(0)
  ELSE RMul(RDiv(RFact(n), RMul(RFact(k), RFact(n - k))),
            RMul(PowN(p, k), PowN(RSub(1, p), n - k)))

(* value of a parameter (or fixed parameter, or default) of a SciPy-like   *)
(* distribution by its name in the distribution; `pname` lists the names   *)
(* the distribution's parameters have, aligned with om.names               *)
ByName(om, par, nm, default) ==
  LET i == IndexOf(om.pname, nm)
      j == IndexOf(om.fixed.names, nm)
  IN IF i > 0 THEN par[i] ELSE IF j > 0 THEN R(om.fixed.values[j]) ELSE R(default)

(* likelihood of segment `seg` (numbers) given the parameter values `par`  *)
Pdf(om, par, seg) ==
  LET x == seg[1] IN
  CASE om.type = "gaussian"   -> NormPdf(x, par[1], par[2])
    [] om.type = "laplace"    -> LaplacePdf(x, par[1], par[2])
    [] om.type = "whitenoise" -> NormPdf(x, 0, par[1])
    [] om.type = "poisson"    -> PoissonPmf(RFloor(x), par[1])
    [] om.type = "bernoulli"  -> BernoulliPmf(x, par[1])
    [] om.type = "ar1"        -> NormPdf(seg[2], RMul(par[1], x), par[2])
    [] om.type = "scaledar1"  ->
         NormPdf(seg[2], RMul(par[1], x), RMul(par[2], RSqrt(RSub(1, Sq(par[1])))))
    [] om.type = "gaussianmean" -> NormPdf(x[1], par[1], x[2])
    [] om.type \in {"scipy", "sympy"} ->
         (CASE om.dist = "norm"    -> NormPdf(x, ByName(om, par, "loc", 0), ByName(om, par, "scale", 1))
            [] om.dist = "laplace" -> LaplacePdf(x, ByName(om, par, "loc", 0), ByName(om, par, "scale", 1))
            [] om.dist = "expon"   -> ExponPdf(x, ByName(om, par, "loc", 0), ByName(om, par, "scale", 1))
            [] om.dist = "uniform" -> UniformPdf(x, ByName(om, par, "loc", 0), ByName(om, par, "scale", 1))
            [] om.dist = "poisson" -> PoissonPmf(RFloor(RSub(x, ByName(om, par, "loc", 0))), ByName(om, par, "mu", 1))
            [] om.dist = "binom"   -> BinomPmf(RFloor(x), RFloor(ByName(om, par, "n", 1)), ByName(om, par, "p", 0)))
    [] om.type = "numpy" ->
         (CASE om.f = "norm"   -> NormPdf(x, par[1], par[2])
            [] om.f = "cauchy" -> RDiv(par[2], RMul(RPi, RAdd(Sq(par[2]), Sq(RSub(x, par[1])))))
            [] om.f = "table"  -> \* exp(-(x-a)^2) * (1 + b), vanishing for x < a
                 IF RLt(x, par[1]) THEN R(0) ELSE RExp(RNeg(Sq(RSub(x, par[1]))))
            [] om.f = "three"  -> NormPdf(x, RAdd(par[1], par[3]), par[2])
            [] om.f = "pair"   -> \* two numbers per time step: the second one is the standard deviation
                 NormPdf(x[1], par[1], x[2]))

IsSeq(x) == DOMAIN x # {}   \* only applied to sequences
(* the likelihood on the grid; `dim` = 0: observations are numbers,        *)
(* otherwise sequences of `dim` numbers                                     *)
PdfGrid(om, G, seg) ==
  LET pts == Mk(Len(G.shape), LAMBDA a : Points(G, a))
  IN Mk(G.n, LAMBDA k : Pdf(om, [a \in 1..Len(G.shape) |-> pts[a][k]], seg))
Ones(G) == Mk(G.n, LAMBDA k : R(1))
MissingIn(seg, dim) ==
  IF dim = 0 THEN \E i \in 1..Len(seg) : RIsNan(seg[i])
  ELSE \E i \in 1..Len(seg) : \E d \in 1..dim : RIsNan(seg[i][d])
Likelihood1(om, G, seg, dim) == IF MissingIn(seg, dim) THEN Ones(G) ELSE PdfGrid(om, G, seg)
RECURSIVE LikeDims(_, _, _, _)
LikeDims(om, G, seg, d) ==
  IF d = 0 THEN Ones(G)
  ELSE VMul(Likelihood1(om, G, [i \in 1..Len(seg) |-> seg[i][d]], 0),
            LikeDims(om, G, seg, d - 1))
Likelihood(om, G, seg, dim) ==
  IF dim > 0 /\ Multiplies(om) THEN LikeDims(om, G, seg, dim)
  ELSE Likelihood1(om, G, seg, dim)

\* the data segments of a time series, and the time stamps they belong to
Segments(om, data) ==
  LET L == SegLen(om) IN [i \in 1..(Len(data) - L + 1) |-> SubSeq(data, i, i + L - 1)]
SegmentTimes(om, ts) == SubSeq(ts, SegLen(om), Len(ts))
Likelihoods(om, G, data, dim) ==
  LET s == Segments(om, data) IN Mk(Len(s), LAMBDA i : Likelihood(om, G, s[i], dim))

(* ---- priors ---- *)
\* functions of parameter values that scenarios refer to by name
PriorFunction(pr, par) ==
  CASE pr.f = "const" -> R(pr.c[1])
    [] pr.f = "expo"  -> RMul(pr.c[1], RExp(RSum([a \in 1..Len(par) |-> RMul(pr.c[a + 1], par[a])])))
    [] pr.f = "absp"  -> RAdd(pr.c[1], RSum([a \in 1..Len(par) |-> RMul(pr.c[a + 1], RAbs(par[a]))]))
\* densities of SymPy random variables
RvPdf(rv, x) ==
  CASE rv.d = "Normal"      -> NormPdf(x, rv.a[1], rv.a[2])
    [] rv.d = "Laplace"     -> LaplacePdf(x, rv.a[1], rv.a[2])
    [] rv.d = "Exponential" -> IF RLt(x, 0) THEN R(0) ELSE RMul(rv.a[1], RExp(RNeg(RMul(rv.a[1], x))))
    [] rv.d = "Uniform"     -> UniformPdf(x, rv.a[1], RSub(rv.a[2], rv.a[1]))
\* Jeffreys priors of the built-in models; all others have a flat default prior
DefaultPrior(om, par) ==
  CASE om.type = "poisson"    -> RSqrt(RDiv(1, par[1]))
    [] om.type = "bernoulli"  -> RDiv(1, RSqrt(RMul(par[1], RSub(1, par[1]))))
    [] om.type \in {"gaussian", "laplace"} -> RDiv(1, Sq(par[2]))
    [] om.type = "whitenoise" -> RDiv(1, par[1])
    [] OTHER -> R(1)
Density(G, v) == VScale(RDiv(1, RMul(RSum(v), G.vol)), v)
PriorDensity(om, G) ==
  LET pr == om.prior
      pts == Mk(Len(G.shape), LAMBDA a : Points(G, a))
      par(k) == [a \in 1..Len(G.shape) |-> pts[a][k]]
  IN CASE pr.kind = "none"    -> Density(G, Ones(G))
       [] pr.kind = "default" -> Density(G, Mk(G.n, LAMBDA k : DefaultPrior(om, par(k))))
       [] pr.kind = "array"   -> Density(G, VR(pr.v))
       [] pr.kind = "func"    -> Density(G, Mk(G.n, LAMBDA k : PriorFunction(pr, par(k))))
       [] pr.kind = "sympy"   -> Mk(G.n, LAMBDA k : RProd([a \in 1..Len(pr.rv) |-> RvPdf(pr.rv[a], par(k)[a])]))
\* is the prior acceptable for this grid?
PriorValid(om, G) ==
  CASE om.prior.kind = "array" -> om.prior.shape = G.shape
    [] om.prior.kind = "sympy" -> Len(om.prior.rv) = Len(G.shape)
    [] OTHER -> TRUE
=============================================================================
