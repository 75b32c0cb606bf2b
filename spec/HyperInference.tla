-------------------------- MODULE HyperInference --------------------------
(* Inference of hyper-parameters: every combination of hyper-parameter      *)
(* values is a model of its own, weighted by its evidence and hyper-prior.  *)
EXTENDS Inference

(* ---- the grid of hyper-parameter values ---- *)
\* 'all' stands for every time stamp of the (segmented) data but the last one
HPValues(h, ts) == IF h.all THEN SubSeq(ts, 1, Len(ts) - 1) ELSE VR(h.v)
HLattice(v) == IF Len(v) > 1 THEN (IF Regular(v) THEN RAbs(RSub(v[2], v[1])) ELSE R(1)) ELSE R(1)
HyperFunction(pr, x) ==
  CASE pr.f = "const" -> R(pr.c[1])
    [] pr.f = "expo"  -> RMul(pr.c[1], RExp(RMul(pr.c[2], x)))
    [] pr.f = "absp"  -> RAdd(pr.c[1], RMul(pr.c[2], RAbs(x)))
\* hyper-prior density on the values v
HyperPrior(pr, v) ==
  LET den(w) == VScale(RDiv(1, RMul(RSum(w), HLattice(v))), w)
  IN CASE pr.kind = "none"  -> den(Mk(Len(v), LAMBDA i : R(1)))
       [] pr.kind = "array" -> den(VR(pr.v))
       [] pr.kind = "func"  -> den(Mk(Len(v), LAMBDA i : HyperFunction(pr, v[i])))
       [] pr.kind = "sympy" -> Mk(Len(v), LAMBDA i : RvPdf(pr.rv[1], v[i]))
HyperPriorValid(h, ts) == h.prior.kind = "array" => Len(h.prior.v) = Len(HPValues(h, ts))

(* [names, values (per hyper-parameter), shape, combos, prior (joint        *)
(* density of each combination), vol (product of the grid constants)]       *)
HyperGrid(tm, ts) ==
  LET h == FlatHP(tm)
      n == Len(h)
      vals == Mk(n, LAMBDA i : HPValues(h[i], ts))
      shape == Mk(n, LAMBDA i : Len(vals[i]))
      total == IProd(shape)
      pri == Mk(n, LAMBDA i : HyperPrior(h[i].prior, vals[i]))
  IN [names |-> HPNames(tm), values |-> vals, shape |-> shape,
      combos |-> Mk(total, LAMBDA k : [i \in 1..n |-> vals[i][Coord(shape, i, k)]]),
      prior |-> Mk(total, LAMBDA k : RProd([i \in 1..n |-> pri[i][Coord(shape, i, k)]])),
      vol |-> RProd([i \in 1..n |-> HLattice(vals[i])])]

(* ---- weights ---- *)
\* weights proportional to exp(logs), summing up to one
Softmax(logs) ==
  LET mx == VMax(logs)
      w == Mk(Len(logs), LAMBDA k : IF RIsFinite(logs[k]) THEN RExp(RSub(logs[k], mx)) ELSE R(0))
  IN VNorm(w)
LogSumExp(logs) ==
  LET mx == VMax(logs)
  IN IF ~RIsFinite(mx) THEN mx
     ELSE RAdd(mx, RLn(RSum([k \in 1..Len(logs) |->
                               IF RIsFinite(logs[k]) THEN RExp(RSub(logs[k], mx)) ELSE R(0)])))
\* average of sequences of distributions with weights w (zero-weight elements need not exist)
Mixture(posts, w) ==
  LET live == {k \in 1..Len(w) : RLt(0, w[k])}
      k0 == CHOOSE k \in live : TRUE
      T == Len(posts[k0])
      n == Len(posts[k0][1])
  IN Mk(T, LAMBDA i :
       VNorm(FoldLeft(LAMBDA acc, k : IF k \in live THEN VAdd(acc, VScale(w[k], posts[k][i])) ELSE acc,
                      VConst(n, R(0)), [k \in 1..Len(w) |-> k])))

(* ---- fit of all combinations.  `keep`: combinations that are considered  *)
(* (their prior is scaled such that the total mass is that of all)           *)
\* one combination fixes the model of the problem
CombinationFit(om, tm, G, P0, x, mode) == Fit([P0 EXCEPT !.m = Compile(SetHP(tm, x), om.names, G)], mode)

CombineFits(H, prior, G, fits, mode) ==
  LET n == Len(fits)
      logs == Mk(n, LAMBDA k : RAdd(RAdd(fits[k].logE, RLn(prior[k])), RLn(H.vol)))
      possible == \E k \in 1..n : RIsFinite(logs[k])
      w == IF possible THEN Softmax(logs) ELSE VConst(n, R(0))
      post == IF possible /\ mode # "evidence" THEN Mixture([k \in 1..n |-> fits[k].post], w) ELSE <<>>
      allok == \A k \in 1..n : fits[k].ok
      star == \E k \in 1..n : fits[k].ok /\ \E i \in 1..Len(fits[k].local) : fits[k].local[i] = "*"
      local == IF ~allok \/ star \/ n = 0 THEN "*"
               ELSE Mk(Len(fits[1].local), LAMBDA i :
                       RMul(H.vol, RSum([k \in 1..n |-> RMul(prior[k], fits[k].local[i])])))
  IN [ok |-> possible, has |-> post # <<>>, logE |-> LogSumExp(logs), local |-> local,
      post |-> post, means |-> IF post = <<>> THEN <<>> ELSE Means(G, post),
      w |-> w, evidences |-> Mk(n, LAMBDA k : fits[k].logE)]

\* combinations a change-point study admits: strictly ordered change-/break-points
RECURSIVE PointNames(_, _)
PointNames(tm, kind) ==
  Concat([i \in 1..Len(tm.subs) |-> PointNames(tm.subs[i], kind)]) \o
  (IF tm.type = kind THEN [i \in 1..Len(tm.hp) |-> tm.hp[i].name] ELSE <<>>)
RECURSIVE SerialCount(_)
SerialCount(tm) ==
  (IF tm.type = "serial" THEN 1 ELSE 0) +
  FoldLeft(LAMBDA acc, s : acc + SerialCount(s), 0, tm.subs)
Points2(tm) == PointNames(tm, "changepoint") \o PointNames(tm, "serial")
Ordered(H, pts, x) ==
  LET idx == SelectSeq([i \in 1..Len(H.names) |-> i], LAMBDA i : H.names[i] \in RangeOf(pts))
  IN \A a \in 1..(Len(idx) - 1) : RLt(x[idx[a]], x[idx[a+1]])
Distinct(H, pts, x) ==
  \A a, b \in 1..Len(H.names) :
     (a # b /\ H.names[a] \in RangeOf(pts) /\ H.names[b] \in RangeOf(pts)) => ~REq(x[a], x[b])

(* result of a hyper-study (all combinations) or change-point study         *)
HyperFit(om, tm, G, P0, H, mode, ordered) ==
  LET all == Len(H.combos)
      keep == SelectSeq([k \in 1..all |-> k], LAMBDA k : ~ordered \/ Ordered(H, Points2(tm), H.combos[k]))
      scale == RDiv(RSum(H.prior), RSum([j \in 1..Len(keep) |-> H.prior[keep[j]]]))
      prior == Mk(Len(keep), LAMBDA j : IF ordered THEN RMul(scale, H.prior[keep[j]]) ELSE H.prior[keep[j]])
      fits == Mk(Len(keep), LAMBDA j : CombinationFit(om, tm, G, P0, H.combos[keep[j]], mode))
      single == Len(keep) = 1
      c == IF single THEN [logE |-> fits[1].logE, local |-> fits[1].local, post |-> fits[1].post,
                           means |-> fits[1].means, ok |-> fits[1].ok, has |-> fits[1].has,
                           w |-> <<R(1)>>, evidences |-> <<>>]
           ELSE CombineFits(H, prior, G, fits, mode)
      wfull == IF c.w = <<>> THEN <<>>
               ELSE Mk(all, LAMBDA k : LET j == IndexOf(keep, k) IN IF j = 0 THEN R(0) ELSE c.w[j])
  IN [ok |-> c.ok, has |-> c.has, logE |-> c.logE, local |-> c.local, post |-> c.post, means |-> c.means,
      w |-> wfull, evidences |-> c.evidences, single |-> single, H |-> H]

(* ---- read-outs ---- *)
HyperMarginal(r, name) == MarginalOf(r.H.shape, r.w, IndexOf(r.H.names, name))
HyperJoint(r, n1, n2) == Marginal2(r.H.shape, r.w, IndexOf(r.H.names, n1), IndexOf(r.H.names, n2))

RECURSIVE SortReals(_)
SortReals(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : RLe(x, y) IN <<m>> \o SortReals(S \ {m})
\* durations between two change-/break-points (in the order of the model) and their probabilities
Durations(r, n1, n2) ==
  LET i1 == IndexOf(r.H.names, n1)
      i2 == IndexOf(r.H.names, n2)
      a == IF i1 < i2 THEN i1 ELSE i2
      b == IF i1 < i2 THEN i2 ELSE i1
      d(k) == RSub(r.H.combos[k][b], r.H.combos[k][a])
      valid == {k \in 1..Len(r.H.combos) : Ordered(r.H, r.pts, r.H.combos[k])}
      ds == SortReals({d(k) : k \in valid})
  IN [d |-> ds,
      p |-> Mk(Len(ds), LAMBDA j :
               RSum([k \in 1..Len(r.H.combos) |->
                       IF RLt(0, d(k)) /\ REq(d(k), ds[j]) THEN r.w[k] ELSE R(0)]))]
=============================================================================
