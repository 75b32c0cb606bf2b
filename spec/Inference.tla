----------------------------- MODULE Inference -----------------------------
(* Sequential inference on a parameter grid: filtering, smoothing, evidence *)
EXTENDS TransModels

(* An inference problem:                                                    *)
(*   [G, prior (density), like (sequence of likelihoods), ts (time stamps), *)
(*    m (compiled transition model), dev]                                   *)
Problem(om, tm, G, data, dim, ts, dev) ==
  [G |-> G, prior |-> PriorDensity(om, G), like |-> Likelihoods(om, G, data, dim),
   ts |-> SegmentTimes(om, ts), m |-> Compile(tm, om.names, G), dev |-> dev]
Ctx(P) == [G |-> P.G, prior |-> VNorm(P.prior), dev |-> P.dev]

(* Filtering.  alpha[i]: distribution given the data up to step i;          *)
(* norm[i]: probability of the i-th observation given the earlier ones      *)
FilterStep(P, ctx, f, i) ==
  IF ~f.ok THEN f ELSE
  LET pre == IF i = 1 THEN P.prior ELSE Forward(P.m, ctx, f.alpha[i-1], P.ts[i-1], 0)
      a == VMul(pre, P.like[i])
      s == RSum(a)
      norm == IF i = 1 THEN RMul(s, P.G.vol) ELSE s
  IN IF RLt(0, s)
     THEN [ok |-> TRUE, alpha |-> Append(f.alpha, VScale(RDiv(1, s), a)), norm |-> Append(f.norm, norm)]
     ELSE [f EXCEPT !.ok = FALSE]
Filter(P) ==
  LET ctx == Ctx(P)
  IN FoldLeft(LAMBDA f, i : FilterStep(P, ctx, f, i), [ok |-> TRUE, alpha |-> <<>>, norm |-> <<>>],
              [i \in 1..Len(P.like) |-> i])

(* Smoothing.  beta[i]: (normalised) message of the data after step i.      *)
Messages(P) ==
  LET n == Len(P.like)
      ctx == Ctx(P)
      step(acc, i) ==       \* acc = beta[i], beta[i+1], ...
        <<VNorm(Backward(P.m, ctx, VMul(acc[1], P.like[i+1]), P.ts[i], 0))>> \o acc
  IN FoldLeft(LAMBDA acc, k : step(acc, n - k), <<Flat(P.G)>>, [k \in 1..(n - 1) |-> k])

LogEvidence(f) == RSum([i \in 1..Len(f.norm) |-> RLn(f.norm[i])])
Means(G, post) ==
  Mk(Len(G.shape), LAMBDA a : LET pts == Points(G, a) IN Mk(Len(post), LAMBDA i : Mean(post[i], pts)))

(* Result of a fit.  has: parameter distributions are available.            *)
NoPost(logE) == [ok |-> FALSE, has |-> FALSE, logE |-> logE, local |-> <<>>, post |-> <<>>, means |-> <<>>]
\* probability of the i-th observation, given all others (not specified, "*", if
\* some parameter value rules out the observation)
LeaveOneOut(post, like) ==
  IF \E k \in 1..Len(like) : RLt(like[k], "1e-250") THEN "*"
  ELSE RDiv(1, RSum([k \in 1..Len(post) |-> RDiv(post[k], like[k])]))
Fit(P, mode) ==
  LET f == Filter(P) IN
  IF ~f.ok THEN [NoPost(R("-inf")) EXCEPT !.local = f.norm]
  ELSE IF mode = "evidence"
  THEN [ok |-> TRUE, has |-> FALSE, logE |-> LogEvidence(f), local |-> f.norm, post |-> <<>>, means |-> <<>>]
  ELSE IF mode = "forward"
  THEN [ok |-> TRUE, has |-> TRUE, logE |-> LogEvidence(f), local |-> f.norm,
        post |-> f.alpha, means |-> Means(P.G, f.alpha)]
  ELSE LET b == Messages(P)
           raw == Mk(Len(P.like), LAMBDA i : VMul(f.alpha[i], b[i]))
       IN IF \E i \in 1..Len(P.like) : ~RLt(0, RSum(raw[i])) THEN NoPost(R("-inf"))
          ELSE LET post == Mk(Len(P.like), LAMBDA i : VNorm(raw[i]))
               IN [ok |-> TRUE, has |-> TRUE, logE |-> LogEvidence(f),
                   local |-> Mk(Len(P.like), LAMBDA i : LeaveOneOut(post[i], P.like[i])),
                   post |-> post, means |-> Means(P.G, post)]
=============================================================================
