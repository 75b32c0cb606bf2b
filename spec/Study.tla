------------------------------- MODULE Study -------------------------------
(* The library as a state machine.  The state holds transition-model        *)
(* objects, studies and files; Exec(st, e, dev) is the effect of one call   *)
(* `e` of the public interface: the new state and the observable outcome.   *)
(*                                                                          *)
(* Outcomes are records; err = "" (success), an exception class, or "!"     *)
(* (any exception).  The value "*" in an outcome means "not specified".     *)
EXTENDS OnlineInference, Query

Empty == [tms |-> <<>>, studies |-> <<>>, files |-> <<>>]   \* functions of names; <<>> has an empty domain
NoRes == [state |-> "none"]

Put(f, k, v) == TLCEval([x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]])

NewStudy(kind, store) ==
  [kind |-> kind, store |-> store, hasData |-> FALSE, data |-> <<>>, dim |-> 0, ts |-> <<>>,
   hasOM |-> FALSE, om |-> <<>>, G |-> <<>>, tm |-> "", res |-> NoRes, stream |-> NoStream]

Done(st, out) == [st |-> st, out |-> out]
Fail(st, cls) == [st |-> st, out |-> [err |-> cls]]
OkOut == [err |-> ""]
Unspec == "*"

(* ---------------------------------------------------------------- models *)
RECURSIVE TMError(_)
\* construction of an invalid transition model is rejected
TMError(tm) ==
  LET sub == {TMError(tm.subs[i]) : i \in 1..Len(tm.subs)}
      first(h) == h.v[1]
      unordered == \E i \in 1..(Len(tm.hp) - 1) :
                      ~tm.hp[i].all /\ ~tm.hp[i+1].all /\ ~RLt(first(tm.hp[i]), first(tm.hp[i+1]))
  IN IF \E x \in sub : x # "" THEN CHOOSE x \in sub : x # ""
     ELSE IF tm.type \in {"grw", "stable", "det"} /\ tm.target = "" THEN "ConfigurationError"
     ELSE IF tm.type = "combined" /\ \E i \in 1..Len(tm.subs) : tm.subs[i].type = "breakpoint" THEN "ConfigurationError"
     ELSE IF tm.type = "serial" /\ (unordered \/ Len(tm.subs) # Len(tm.hp) + 1) THEN "ConfigurationError"
     ELSE IF tm.type = "det" /\ tm.f \in {"badsignature", "wrongpriors"} THEN "ConfigurationError"
     ELSE ""

(* ---------------------------------------------------------- plain studies *)
ConfigError(st, S) ==
  IF ~S.hasData \/ ~S.hasOM \/ S.tm = "" THEN "ConfigurationError"
  ELSE IF HasDup(HPNames(st.tms[S.tm])) THEN "ConfigurationError"
  ELSE IF ~PriorValid(S.om, S.G) THEN "ConfigurationError"
  ELSE ""
HyperError(S, tm) ==
  LET ts == SegmentTimes(S.om, S.ts)
      h == FlatHP(tm)
  IN IF S.kind = "cp" /\ (SerialCount(tm) > 1 \/
                           (PointNames(tm, "changepoint") # <<>> /\ PointNames(tm, "serial") # <<>>))
     THEN "NotImplementedError"
     ELSE IF S.kind = "cp" /\ Points2(tm) = <<>> THEN "ConfigurationError"
     ELSE IF \E i \in 1..Len(h) : ~HyperPriorValid(h[i], ts) THEN "ConfigurationError"
     ELSE IF S.kind = "hyper" /\ Len(Points2(tm)) > 1 /\
             LET H == HyperGrid(tm, ts) IN \E k \in 1..Len(H.combos) : ~Distinct(H, Points2(tm), H.combos[k])
     THEN "ConfigurationError"
     \* no combination of values is left
     ELSE IF \E i \in 1..Len(h) : HPValues(h[i], ts) = <<>> THEN "!"
     ELSE IF S.kind = "cp" /\ LET H == HyperGrid(tm, ts)
                              IN ~(\E k \in 1..Len(H.combos) : Ordered(H, Points2(tm), H.combos[k])) THEN "!"
     ELSE ""

\* the complete result of a fit of study S with transition model tm
FitResult(S, tm, mode, dev) ==
  LET P == Problem(S.om, IF S.kind = "study" THEN tm ELSE [type |-> "static", hp |-> <<>>, subs |-> <<>>, f |-> "", target |-> ""],
                   S.G, S.data, S.dim, S.ts, dev)
      H == HyperGrid(tm, P.ts)
      plain == Fit([P EXCEPT !.m = Compile(tm, S.om.names, S.G)], mode)
      base == [state |-> "ok", times |-> P.ts, G |-> S.G, names |-> S.om.names, hyper |-> FALSE]
  IN IF S.kind = "study" \/ FlatHP(tm) = <<>>
     THEN base @@ plain
     ELSE [base EXCEPT !.hyper = TRUE] @@ [pts |-> Points2(tm)] @@ HyperFit(S.om, tm, S.G, P, H, mode, S.kind = "cp")

FitOut(r) ==
  [err |-> "", logE |-> r.logE, log10E |-> RDiv(r.logE, RLn(R(10))),
   local |-> IF r.ok THEN r.local ELSE Unspec, post |-> r.post,
   means |-> IF r.has THEN r.means ELSE Unspec]

ExecFit(st, e, dev) ==
  LET S == st.studies[e.s]
      broken == [st EXCEPT !.studies = Put(st.studies, e.s, [S EXCEPT !.res = [state |-> "unspecified"]])]
      c == ConfigError(st, S)
  IN IF S.kind = "online" THEN Fail(st, "NotImplementedError")
     ELSE IF c # "" THEN Fail(broken, c)
     ELSE LET tm == st.tms[S.tm]
              h == IF S.kind = "study" THEN "" ELSE HyperError(S, tm)
          IN IF h # "" THEN Fail(broken, h)
             ELSE LET r == TLCEval(FitResult(S, tm, e.mode, dev))
                  IN Done([st EXCEPT !.studies = Put(st.studies, e.s, [S EXCEPT !.res = r])], FitOut(r))

\* optimisation: the values found are those observed; everything else follows from them
ExecOptimize(st, e, dev) ==
  LET S == st.studies[e.s]
      c == ConfigError(st, S)
      tm == st.tms[S.tm]
      names == HPNames(tm)
      h == FlatHP(tm)
      points == RangeOf(Points2(tm))
      free == IF e.names = <<>> THEN {n \in RangeOf(names) : n \notin points} ELSE RangeOf(e.names)
  IN IF S.kind # "study" THEN Fail(st, "NotImplementedError")
     ELSE IF c # "" THEN Fail(st, c)
     ELSE IF free = {} \/ ~(free \subseteq RangeOf(names)) THEN Fail(st, "ConfigurationError")
     ELSE IF e.out.err # "" \/ Len(e.out.values) # Len(names) THEN Done(st, [err |-> "", values |-> h])
     ELSE LET tm2 == SetHP(tm, VR(e.out.values))
              r == TLCEval(FitResult(S, tm2, e.mode, dev))
              start == FitResult(S, tm, "evidence", dev).logE
          IN Done([st EXCEPT !.studies = Put(st.studies, e.s, [S EXCEPT !.res = r]),
                             !.tms = Put(st.tms, S.tm, tm2)],
                  FitOut(r) @@
                  [values |-> [i \in 1..Len(h) |-> IF names[i] \in free THEN Unspec ELSE R(h[i].v[1])],
                   better |-> RLe(RSub(start, e.tol), r.logE)])

(* ------------------------------------------------------------- read-outs *)
Average(post) == VScale(RDiv(1, Len(post)),
                        FoldLeft(LAMBDA acc, p : VAdd(acc, p), VConst(Len(post[1]), R(0)), post))
\* [posts, times, G, names] of the stored distributions, or "none"/"unspecified"
Stored(S) ==
  IF S.kind = "online"
  THEN (IF S.stream.n = 0 THEN [state |-> "unspecified"]
        ELSE IF ~S.store THEN [state |-> "none"]
        ELSE IF \E i \in 1..S.stream.n : ~S.stream.hist[i].ok THEN [state |-> "unspecified"]
        ELSE [state |-> "ok", post |-> [i \in 1..S.stream.n |-> S.stream.hist[i].post],
              times |-> S.stream.times, G |-> S.G, names |-> S.om.names])
  ELSE IF S.res.state # "ok" THEN S.res
  ELSE IF ~S.res.has THEN [state |-> "none"]
  ELSE [state |-> "ok", post |-> S.res.post, times |-> S.res.times, G |-> S.res.G, names |-> S.res.names]

\* an outcome that needs the stored distributions
WithStored(st, S, F(_)) ==
  LET d == Stored(S)
  IN IF d.state \in {"unspecified", "stale"} THEN Done(st, Unspec)
     ELSE IF d.state = "none" THEN Fail(st, "PostProcessingError")
     ELSE Done(st, F(d))
PPError == [err |-> "PostProcessingError"]

Dens(G, a, p, density) == IF density THEN VScale(RDiv(1, G.lc[a]), p) ELSE p
ReadPD(d, e) ==
  LET a == IndexOf(d.names, e.name)
      i == IF e.t = "avg" THEN 1 ELSE IndexOfReal(d.times, e.t)
      p == IF e.t = "avg" THEN Average(d.post) ELSE d.post[i]
  IN IF a = 0 \/ i = 0 THEN PPError
     ELSE [err |-> "", x |-> d.G.axes[a], p |-> Dens(d.G, a, MarginalOf(d.G.shape, p, a), e.density)]
ReadPDs(d, e) ==
  LET a == IndexOf(d.names, e.name)
  IN IF a = 0 THEN PPError
     ELSE [err |-> "", x |-> d.G.axes[a],
           p |-> Mk(Len(d.post), LAMBDA i : Dens(d.G, a, MarginalOf(d.G.shape, d.post[i], a), e.density))]
ReadMeans(d, e) ==
  LET a == IndexOf(d.names, e.name)
  IN IF a = 0 THEN PPError ELSE [err |-> "", m |-> Means(d.G, d.post)[a]]
ReadMeanAt(d, e) ==
  LET a == IndexOf(d.names, e.name)
      i == IndexOfReal(d.times, e.t)
  IN IF a = 0 \/ i = 0 THEN PPError ELSE [err |-> "", m |-> Mean(d.post[i], Points(d.G, a))]
Simulate(S, d, e) ==
  LET i == IF e.t = "none" THEN 1 ELSE IndexOfReal(d.times, e.t)
      p == IF e.t = "none" THEN Average(d.post) ELSE d.post[i]
      raw == Mk(Len(e.x), LAMBDA k : VDot(PdfGrid(S.om, S.G, <<R(e.x[k])>>), p))
  IN IF i = 0 THEN PPError ELSE [err |-> "", p |-> IF e.density THEN raw ELSE IF REq(RSum(raw), 0) THEN Unspec ELSE VNorm(raw)]

\* hyper-parameter distributions of hyper- and change-point studies
WithHyper(st, S, names, single, F(_)) ==    \* single: also if there is only one combination
  LET r == S.res
  IN IF r.state \in {"unspecified", "stale"} THEN Done(st, Unspec)
     ELSE IF r.state = "none" \/ ~r.hyper \/ (r.single /\ ~single) THEN Fail(st, "PostProcessingError")
     ELSE IF \E i \in 1..Len(names) : IndexOf(r.H.names, names[i]) = 0 THEN Fail(st, "PostProcessingError")
     ELSE Done(st, F(r))
ReadHPD(r, e) == [err |-> "", x |-> r.H.values[IndexOf(r.H.names, e.name)], p |-> HyperMarginal(r, e.name)]
ReadJHPD(r, e) == [err |-> "", x |-> r.H.values[IndexOf(r.H.names, e.n1)], y |-> r.H.values[IndexOf(r.H.names, e.n2)],
                   p |-> HyperJoint(r, e.n1, e.n2)]
ReadDD(r, e) == LET d == Durations(r, e.n1, e.n2) IN [err |-> "", d |-> d.d, p |-> d.p]

(* --------------------------------------------------------- online studies *)
ExecStep(st, e, dev) ==
  LET S0 == st.studies[e.s]
      auto == S0.stream.models = <<>> /\ S0.tm # ""
      S == IF auto THEN [S0 EXCEPT !.stream.models = <<OnlineModel("transition model", st.tms[S0.tm])>>] ELSE S0
      ms == S.stream.models
      put(x) == [st EXCEPT !.studies = Put(st.studies, e.s, x)]
      allNames == Concat([i \in 1..Len(ms) |-> ms[i].H.names])
      x == IF S.dim = 0 /\ e.dim = 0 THEN R(e.x) ELSE VR(e.x)
      data == Append(S.data, x)
      L == SegLen(S.om)
      t == R(Len(data) - 1)
  IN IF ms = <<>> THEN Fail(st, "ConfigurationError")
     ELSE IF HasDup(allNames) THEN Fail(put(S), "ConfigurationError")
     ELSE IF ~S.hasOM THEN Fail(put(S), "ConfigurationError")
     ELSE IF Len(data) < L
     THEN Done(put([S EXCEPT !.data = data, !.dim = e.dim]), OkOut)
     ELSE LET like == Likelihood(S.om, S.G, SubSeq(data, Len(data) - L + 1, Len(data)), e.dim)
              s == TLCEval(OnlineUpdate(S.stream, S.om, S.G, like, t, dev))
          IN Done(put([S EXCEPT !.data = data, !.dim = e.dim, !.stream = s]),
                  [err |-> "", logE |-> s.cur.logE, post |-> IF s.cur.ok /\ S.store THEN s.cur.post ELSE Unspec])

\* the model (1st) and position (2nd) of a hyper-parameter of an online study; <<0, 0>>: unknown
Locate(s, name) ==
  LET hits == {i \in 1..Len(s.models) : IndexOf(s.models[i].H.names, name) > 0}
  IN IF hits = {} THEN <<0, 0>> ELSE LET i == CHOOSE i \in hits : TRUE IN <<i, IndexOf(s.models[i].H.names, name)>>
WithStream(st, S, history, F(_)) ==
  IF S.stream.n = 0 THEN Done(st, Unspec)
  ELSE IF history /\ ~S.store THEN Fail(st, "PostProcessingError")
  ELSE IF \E i \in 1..S.stream.n : ~S.stream.hist[i].ok THEN Done(st, Unspec)
  ELSE Done(st, F(S.stream))
TMNames(s) == [i \in 1..Len(s.models) |-> s.models[i].name]
ReadCHPD(s, e, w) ==
  LET q == Locate(s, e.name)
      H == s.models[q[1]].H
  IN IF q[1] = 0 THEN PPError
     ELSE [err |-> "", x |-> H.values[q[2]], p |-> MarginalOf(H.shape, w[q[1]], q[2])]
AvgHyper(s) ==
  [i \in 1..Len(s.models) |-> Average([k \in 1..s.n |-> s.hist[k].hyper[i]])]
ReadHPDt(s, e) ==
  LET i == IF e.t = "avg" THEN 1 ELSE IndexOfReal(s.times, e.t)
  IN IF i = 0 THEN PPError
     ELSE ReadCHPD(s, e, IF e.t = "avg" THEN AvgHyper(s) ELSE s.hist[i].hyper)
ReadHPDs(s, e) ==
  LET q == Locate(s, e.name)
      H == s.models[q[1]].H
      vals == SortReals(RangeOf(H.values[q[2]]))
      marg(i) == MarginalOf(H.shape, s.hist[i].hyper[q[1]], q[2])
  IN IF q[1] = 0 THEN PPError
     ELSE [err |-> "", x |-> vals,
           p |-> Mk(s.n, LAMBDA i : LET m == marg(i) IN
                    IF REq(RSum(m), 0) THEN Unspec
                    ELSE Mk(Len(vals), LAMBDA k : m[IndexOfReal(H.values[q[2]], vals[k])]))]
ReadHPMean(s, e) ==
  LET q == Locate(s, e.name)
      i == IndexOfReal(s.times, e.t)
  IN IF q[1] = 0 \/ i = 0 THEN PPError
     ELSE [err |-> "", m |-> HyperMean(s.models[q[1]].H, s.hist[i].hyper[q[1]], q[2])]
ReadHPMeans(s, e) ==
  LET q == Locate(s, e.name)
  IN IF q[1] = 0 THEN PPError
     ELSE [err |-> "", m |-> Mk(s.n, LAMBDA i : HyperMean(s.models[q[1]].H, s.hist[i].hyper[q[1]], q[2]))]
ReadCPD(S, s, e) ==
  LET a == IndexOf(S.om.names, e.name)
  IN IF a = 0 THEN PPError
     ELSE [err |-> "", x |-> S.G.axes[a], p |-> Dens(S.G, a, MarginalOf(S.G.shape, s.cur.post, a), e.density)]
ReadCPM(S, s, e) ==
  LET a == IndexOf(S.om.names, e.name)
  IN IF a = 0 THEN PPError ELSE [err |-> "", m |-> Mean(s.cur.post, Points(S.G, a))]

(* ----------------------------------------------------------------- queries *)
RECURSIVE Pars(_)
Pars(x) == CASE x.k = "par" -> <<x>>
             [] x.k = "num" -> <<>>
             [] x.k = "fn"  -> Pars(x.a)
             [] x.k = "op"  -> Pars(x.a) \o Pars(x.b)
HyperNamesOf(S) ==
  IF S.kind = "online" THEN Concat([i \in 1..Len(S.stream.models) |-> S.stream.models[i].H.names])
  ELSE IF S.kind = "study" \/ S.res.state # "ok" \/ ~S.res.hyper THEN <<>> ELSE S.res.H.names
\* where a name comes from
Owner(st, e, name) ==
  LET hits == {i \in 1..Len(e.studies) :
                 LET S == st.studies[e.studies[i]] IN
                 IndexOf(S.om.names, name) > 0 \/ IndexOf(HyperNamesOf(S), name) > 0}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : TRUE
IsParameter(S, name) == IndexOf(S.om.names, name) > 0
LastTime(S) == S.stream.times[S.stream.n]
\* time stamp a name refers to: "none" if a time is needed but missing, "-" if no time is needed
TimeOf(S, e, par) ==
  IF ~IsParameter(S, par.name) /\ S.kind # "online" THEN "-"
  ELSE IF par.at # "none" THEN par.at
  ELSE IF e.t # "none" THEN e.t
  ELSE IF S.kind = "online" /\ ~S.store THEN "last"
  ELSE "none"
TimesOf(S) == IF S.kind = "online" THEN S.stream.times ELSE S.res.times
TimeIndex(S, t) == IF t = "-" THEN 1 ELSE IF t = "last" THEN S.stream.n
                   ELSE IF t = "none" THEN 0 ELSE IndexOfReal(TimesOf(S), t)
\* source of randomness: study, kind, transition model, time index
KeyOf(st, e, par) ==
  LET o == Owner(st, e, par.name)
      S == st.studies[e.studies[o]]
      i == TimeIndex(S, TimeOf(S, e, par))
  IN IF IsParameter(S, par.name) THEN <<o, "p", 0, i>>
     ELSE IF S.kind = "online" THEN <<o, "h", Locate(S.stream, par.name)[1], i>>
     ELSE <<o, "h", 0, 0>>
AxisOf(st, e, par) ==
  LET S == st.studies[e.studies[Owner(st, e, par.name)]]
  IN IF IsParameter(S, par.name) THEN IndexOf(S.om.names, par.name)
     ELSE IF S.kind = "online" THEN Locate(S.stream, par.name)[2]
     ELSE IndexOf(S.res.H.names, par.name)
SourceOf(st, e, key) ==
  LET S == st.studies[e.studies[key[1]]]
      post(i) == IF S.kind = "online" THEN S.stream.hist[i].post ELSE S.res.post[i]
  IN IF key[2] = "p"
     THEN [p |-> post(key[4]), x |-> Mk(Len(S.om.names), LAMBDA a : Points(S.G, a))]
     ELSE IF S.kind = "online"
     THEN LET H == S.stream.models[key[3]].H IN
          [p |-> S.stream.hist[key[4]].hyper[key[3]],
           x |-> Mk(Len(H.names), LAMBDA a : Mk(Len(H.combos), LAMBDA j : H.combos[j][a]))]
     ELSE [p |-> S.res.w,
           x |-> Mk(Len(S.res.H.names), LAMBDA a : Mk(Len(S.res.H.combos), LAMBDA j : S.res.H.combos[j][a]))]
RECURSIVE Bind(_, _, _, _)
Bind(x, st, e, keys) ==
  CASE x.k = "num" -> x
    [] x.k = "par" -> [k |-> "par", src |-> IndexOf(keys, KeyOf(st, e, x)), ax |-> AxisOf(st, e, x)]
    [] x.k = "fn"  -> [x EXCEPT !.a = Bind(x.a, st, e, keys)]
    [] x.k = "op"  -> [x EXCEPT !.a = Bind(x.a, st, e, keys), !.b = Bind(x.b, st, e, keys)]
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>>
           ELSE LET r == Uniq(SubSeq(s, 1, Len(s) - 1)) IN
                IF IndexOf(r, s[Len(s)]) > 0 THEN r ELSE Append(r, s[Len(s)])
NameBag(st, e) ==
  Concat([i \in 1..Len(e.studies) |->
            LET S == st.studies[e.studies[i]] IN S.om.names \o HyperNamesOf(S)])
ExecEval(st, e, dev) ==
  LET ps == Pars(e.lhs) \o (IF e.rel \in {"", "two"} THEN <<>> ELSE Pars(e.rhs))
      S(i) == st.studies[e.studies[i]]
      ready(i) == LET d == Stored(S(i)) IN d.state = "ok" \/ (S(i).kind = "online" /\ ~S(i).store /\ S(i).stream.n > 0)
      timesOk == \A i \in 1..Len(ps) :
                    /\ Owner(st, e, ps[i].name) > 0
                    /\ LET T == S(Owner(st, e, ps[i].name)) IN TimeIndex(T, TimeOf(T, e, ps[i])) > 0
      globalOk == e.t = "none" \/ \A i \in 1..Len(e.studies) :
                    /\ IndexOfReal(TimesOf(S(i)), e.t) > 0
                    /\ (S(i).kind # "online" \/ S(i).store)
      keys == Uniq([i \in 1..Len(ps) |-> KeyOf(st, e, ps[i])])
      src == Mk(Len(keys), LAMBDA i : SourceOf(st, e, keys[i]))
  IN IF e.studies = <<>> \/ HasDup(NameBag(st, e)) THEN Fail(st, "ConfigurationError")
     ELSE IF \E i \in 1..Len(e.studies) : ~ready(i) THEN Done(st, Unspec)
     ELSE IF ~globalOk \/ ~timesOk \/ e.rel = "two" THEN Fail(st, "!")
     ELSE IF e.rel = "" THEN
          LET x == Bind(e.lhs, st, e, keys)
              d == IF "compound" \in dev THEN Combine(x, src) ELSE Derived(x, src)
          IN IF \A k \in 1..Len(d.v) : REq(d.v[k], d.v[1]) THEN Done(st, Unspec)   \* not a distribution
             ELSE IF e.out.err # "" THEN Done(st, OkOut)
             ELSE Done(st, [err |-> "", represents |-> BinnedOk(e.out.v, e.out.p, d, "1e-9")])
     ELSE LET a == Bind(e.lhs, st, e, keys)
              b == Bind(e.rhs, st, e, keys)
          IN Done(st, [err |-> "", p |-> IF "compound" \in dev THEN CombinedProbability(a, e.rel, b, src)
                                         ELSE Probability(a, e.rel, b, src)])

(* ------------------------------------------------------------- dispatcher *)
Stale(S) == [S EXCEPT !.res = IF S.res.state = "none" THEN S.res ELSE [state |-> "stale"]]
Exec(st, e, dev) ==
  LET S == st.studies[e.s]
      put(x) == [st EXCEPT !.studies = Put(st.studies, e.s, x)]
  IN
  CASE e.c = "begin" -> Done(Empty, OkOut)
    [] e.c = "newTM" ->
         LET c == TMError(e.tm)
         IN IF c # "" THEN Fail(st, c) ELSE Done([st EXCEPT !.tms = Put(st.tms, e.id, e.tm)], OkOut)
    [] e.c = "newStudy" -> Done(put(NewStudy(e.kind, e.store)), OkOut)
    [] e.c = "load" ->
         LET n == Len(e.data)
             ts == IF e.hasts /\ Len(e.ts) = n THEN VR(e.ts) ELSE Mk(n, LAMBDA i : R(i - 1))
             data == IF e.dim = 0 THEN VR(e.data) ELSE Mk(n, LAMBDA i : VR(e.data[i]))
         IN Done(put([Stale(S) EXCEPT !.hasData = n > 0, !.data = data, !.dim = e.dim, !.ts = ts]), OkOut)
    [] e.c = "badload" -> Fail(st, "ConfigurationError")
    [] e.c = "setOM" ->
         Done(put([Stale(S) EXCEPT !.hasOM = TRUE, !.om = e.om, !.G = MkGrid(e.om.grids)]), OkOut)
    [] e.c = "badOM" -> Fail(st, "ConfigurationError")
    [] e.c = "setTM" -> Done(put([Stale(S) EXCEPT !.tm = e.id]), OkOut)
    [] e.c = "setBoth" ->
         Done(put([Stale(S) EXCEPT !.hasOM = TRUE, !.om = e.om, !.G = MkGrid(e.om.grids), !.tm = e.id]), OkOut)
    [] e.c = "badset" -> Fail(put(Stale(S)), "ConfigurationError")
    [] e.c = "fit" -> ExecFit(st, e, dev)
    [] e.c = "interrupt" ->     \* a fit that the user interrupts leaves no (specified) results
         IF S.kind = "online" \/ ConfigError(st, S) # "" THEN Done(st, Unspec)
         ELSE Done(put([S EXCEPT !.res = [state |-> "unspecified"]]), Unspec)
    [] e.c = "optimize" -> ExecOptimize(st, e, dev)
    [] e.c = "results" ->       \* all stored results at once
         IF S.res.state # "ok" THEN Done(st, Unspec) ELSE Done(st, FitOut(S.res))
    [] e.c = "pd"     -> WithStored(st, S, LAMBDA d : ReadPD(d, e))
    [] e.c = "pds"    -> WithStored(st, S, LAMBDA d : ReadPDs(d, e))
    [] e.c = "means"  -> WithStored(st, S, LAMBDA d : ReadMeans(d, e))
    [] e.c = "meanat" -> WithStored(st, S, LAMBDA d : ReadMeanAt(d, e))
    [] e.c = "simulate" ->
         IF SegLen(S.om) > 1 THEN Fail(st, "NotImplementedError")
         ELSE WithStored(st, S, LAMBDA d : Simulate(S, d, e))
    [] e.c = "hpd"  -> WithHyper(st, S, <<e.name>>, FALSE, LAMBDA r : ReadHPD(r, e))
    [] e.c = "jhpd" -> WithHyper(st, S, <<e.n1, e.n2>>, FALSE, LAMBDA r : ReadJHPD(r, e))
    [] e.c = "dd"   -> WithHyper(st, S, <<e.n1, e.n2>>, TRUE, LAMBDA r : ReadDD(r, e))
    [] e.c = "hpvalue" ->
         LET tm == st.tms[S.tm]
             i == IndexOf(HPNames(tm), e.name)
         IN IF i = 0 THEN Fail(st, "PostProcessingError")
            ELSE LET h == FlatHP(tm)[i] IN
                 Done(st, [err |-> "", v |-> IF h.all THEN <<"all">> ELSE VR(h.v)])
    [] e.c = "plot" -> \* no result, no effect
         LET d == Stored(S) IN IF d.state = "ok" THEN Done(st, OkOut) ELSE Done(st, Unspec)
    [] e.c = "inputs" -> Done(st, [err |-> "", changed |-> <<>>])
    [] e.c = "addTM" ->
         Done(put([S EXCEPT !.stream.models = Append(S.stream.models, OnlineModel(e.name, st.tms[e.id])),
                            !.tm = e.id]), OkOut)
    [] e.c = "tmprior" ->
         IF Len(e.v) # Len(S.stream.models) THEN Fail(st, "ConfigurationError")
         ELSE Done(put([S EXCEPT !.stream.prior = e.v]), OkOut)
    [] e.c = "step" -> ExecStep(st, e, dev)
    [] e.c = "cpd"  -> WithStream(st, S, FALSE, LAMBDA s : ReadCPD(S, s, e))
    [] e.c = "cpm"  -> WithStream(st, S, FALSE, LAMBDA s : ReadCPM(S, s, e))
    [] e.c = "ctmd" -> WithStream(st, S, FALSE, LAMBDA s :
         [err |-> "", names |-> TMNames(s), p |-> IF e.local THEN s.cur.loc ELSE s.cur.tmd])
    [] e.c = "ctmp" -> WithStream(st, S, FALSE, LAMBDA s :
         LET i == IndexOf(TMNames(s), e.name)
         IN IF i = 0 THEN [err |-> "!"] ELSE [err |-> "", p |-> (IF e.local THEN s.cur.loc ELSE s.cur.tmd)[i]])
    [] e.c = "tmds" -> WithStream(st, S, TRUE, LAMBDA s :
         [err |-> "", names |-> TMNames(s),
          p |-> [k \in 1..s.n |-> IF e.local THEN s.hist[k].loc ELSE s.hist[k].tmd]])
    [] e.c = "tmps" -> WithStream(st, S, TRUE, LAMBDA s :
         LET i == IndexOf(TMNames(s), e.name)
         IN IF i = 0 THEN [err |-> "!"]
            ELSE [err |-> "", p |-> [k \in 1..s.n |-> (IF e.local THEN s.hist[k].loc ELSE s.hist[k].tmd)[i]]])
    [] e.c = "chpd"    -> WithStream(st, S, FALSE, LAMBDA s : ReadCHPD(s, e, s.cur.hyper))
    [] e.c = "hpdt"    -> WithStream(st, S, TRUE, LAMBDA s : ReadHPDt(s, e))
    [] e.c = "hpds"    -> WithStream(st, S, TRUE, LAMBDA s : ReadHPDs(s, e))
    [] e.c = "hpmean"  -> WithStream(st, S, TRUE, LAMBDA s : ReadHPMean(s, e))
    [] e.c = "hpmeans" -> WithStream(st, S, TRUE, LAMBDA s : ReadHPMeans(s, e))
    [] e.c = "eval" -> ExecEval(st, e, dev)
    [] e.c = "save" ->
         Done([st EXCEPT !.files = Put(st.files, e.path,
                 [study |-> S, tms |-> [x \in DOMAIN st.tms |-> st.tms[x]]])], OkOut)
    [] e.c = "badsave" -> Fail(st, "!")      \* cannot be serialised: no effect
    [] e.c = "restore" ->
         IF e.path \notin DOMAIN st.files THEN Fail(st, "!")
         ELSE LET f == st.files[e.path]
                  id == e.s \o ":tm"
              IN IF f.study.tm = "" THEN Done(put(f.study), OkOut)
                 ELSE Done([st EXCEPT !.studies = Put(st.studies, e.s, [f.study EXCEPT !.tm = id]),
                                      !.tms = Put(st.tms, id, f.tms[f.study.tm])], OkOut)
=============================================================================
