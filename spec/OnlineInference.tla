-------------------------- MODULE OnlineInference --------------------------
(* Online studies: data arrive one by one; several transition models, each  *)
(* with a grid of hyper-parameter values, compete.                          *)
EXTENDS HyperInference

(* State of the stream                                                      *)
(*   models : sequence of [name, tm, H]                                     *)
(*   prior  : probabilities of the models, or <<>> (equal)                  *)
(*   n      : number of updates so far                                      *)
(*   alpha, logs : per model and combination: distribution, log-evidence    *)
(*   evid   : per model, log-evidence marginalised over the hyper-parameters *)
(*   comp   : compiled models                                               *)
(*   cur    : read-outs of the last update, hist : those of all updates     *)
NoStream == [models |-> <<>>, prior |-> <<>>, n |-> 0, alpha |-> <<>>, logs |-> <<>>, evid |-> <<>>,
             comp |-> <<>>, cur |-> <<>>, hist |-> <<>>, times |-> <<>>]
\* a model without hyper-parameters has exactly one (empty) combination
OnlineModel(name, tm) == [name |-> name, tm |-> tm, H |-> HyperGrid(tm, <<>>)]
ModelPrior(s) ==
  IF s.prior = <<>> THEN Mk(Len(s.models), LAMBDA i : RDiv(1, Len(s.models))) ELSE VNorm(VR(s.prior))

(* one update with the likelihood `like` of the newest segment (time `t`);  *)
(* the previous update has time `tp`                                        *)
OnlineUpdate(s, om, G, like, t, dev) ==
  LET first == s.n = 0
      M == Len(s.models)
      C(i) == Len(s.models[i].H.combos)
      comp == IF ~first THEN s.comp
              ELSE Mk(M, LAMBDA i : Mk(C(i), LAMBDA j :
                      Compile(SetHP(s.models[i].tm, s.models[i].H.combos[j]), om.names, G)))
      dens == PriorDensity(om, G)
      ctx == [G |-> G, prior |-> VNorm(dens), dev |-> dev]
      joint(i, j) ==
        IF first THEN VMul(VScale(G.vol, dens), like)
        ELSE IF ~RIsFinite(s.logs[i][j]) THEN VConst(G.n, R(0))
        ELSE VMul(Forward(comp[i][j], ctx, s.alpha[i][j], s.times[s.n], 0), like)
      raw == Mk(M, LAMBDA i : Mk(C(i), LAMBDA j : joint(i, j)))
      norm == Mk(M, LAMBDA i : Mk(C(i), LAMBDA j : RSum(raw[i][j])))
      alpha == Mk(M, LAMBDA i : Mk(C(i), LAMBDA j :
                  IF RLt(0, norm[i][j]) THEN VNorm(raw[i][j]) ELSE VConst(G.n, R(0))))
      logs == Mk(M, LAMBDA i : Mk(C(i), LAMBDA j :
                  LET l == IF RLt(0, norm[i][j]) THEN RLn(norm[i][j]) ELSE R("-inf")
                  IN IF first THEN l ELSE RAdd(s.logs[i][j], l)))
      weighted(i) == Mk(C(i), LAMBDA j : RAdd(logs[i][j], RLn(s.models[i].H.prior[j])))
      hvol(i) == IF "onlinehgc" \in dev THEN R(1) ELSE s.models[i].H.vol
      evid == Mk(M, LAMBDA i : RAdd(LogSumExp(weighted(i)), RLn(hvol(i))))
      possible(i) == RIsFinite(evid[i])
      hyper == Mk(M, LAMBDA i : IF possible(i) THEN Softmax(weighted(i)) ELSE VConst(C(i), R(0)))
      mp == ModelPrior(s)
      any == \E i \in 1..M : possible(i)
      tmd == IF ~any THEN <<>>
             ELSE Softmax(Mk(M, LAMBDA i : IF "onlineprior" \in dev THEN evid[i] ELSE RAdd(evid[i], RLn(mp[i]))))
      loc == IF ~any THEN <<>>
             ELSE Softmax(Mk(M, LAMBDA i :
                    IF ~possible(i) THEN R("-inf")
                    ELSE RAdd(RSub(evid[i], IF first THEN R(0) ELSE s.evid[i]), RLn(mp[i]))))
      mix(i) == FoldLeft(LAMBDA acc, j : VAdd(acc, VScale(hyper[i][j], alpha[i][j])),
                         VConst(G.n, R(0)), [j \in 1..C(i) |-> j])
      marg == IF ~any THEN <<>>
              ELSE FoldLeft(LAMBDA acc, i : VAdd(acc, VScale(tmd[i], mix(i))),
                            VConst(G.n, R(0)), [i \in 1..M |-> i])
      cur == [ok |-> any, post |-> marg, tmd |-> tmd, loc |-> loc, hyper |-> hyper,
              logE |-> LogSumExp(Mk(M, LAMBDA i : RAdd(evid[i], RLn(mp[i]))))]
  IN [s EXCEPT !.n = s.n + 1, !.alpha = alpha, !.logs = logs, !.evid = evid, !.comp = comp,
               !.cur = cur, !.hist = Append(s.hist, cur), !.times = Append(s.times, t)]

\* mean value of the k-th hyper-parameter of a model, given probabilities w of its combinations
HyperMean(H, w, k) == VDot(w, [j \in 1..Len(w) |-> H.combos[j][k]])
=============================================================================
