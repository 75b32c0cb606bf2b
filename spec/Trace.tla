------------------------------- MODULE Trace -------------------------------
(* Conformance: calls recorded from the implementation, together with their *)
(* observed outcomes, have to be behaviours of the module Study.            *)
(*                                                                          *)
(* The log (ndjson, named by the environment variable TRACE) contains many  *)
(* traces; each starts with an event "begin" that carries its number and    *)
(* the set of known deviations (see known_findings.json) that can matter    *)
(* for it.  An event is accepted if its outcome is the one Exec specifies.  *)
(* If it is not, the whole trace so far is matched against the              *)
(* specification with (subsets of) the known deviations; if that fails too  *)
(* the trace is rejected, and the check goes on with the next trace.        *)
EXTENDS Study, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

\* first difference of a specified and an observed outcome, "" if they agree (see RealOps.java):
\* numbers agree up to rounding errors, "*" agrees with everything, "!" with every error
Diff(pred, obs, fields) == Unevaluated

VARIABLES l,       \* position in the log
          b,       \* position of the last "begin"
          st,      \* state of the library according to the specification
          dev,     \* known deviations observed in this trace
          bad      \* this trace has been rejected
vars == <<l, b, st, dev, bad>>

Init == l = 1 /\ b = 1 /\ st = Empty /\ dev = {} /\ bad = FALSE

\* an event may restrict the comparison to some fields of the outcome (errors are always compared)
Mismatch(out, e) == Diff(out, e.out, IF "j" \in DOMAIN e THEN e.j ELSE <<>>)

\* effect of events i..j from state s: [st, ok (all outcomes agree), d (first difference)]
RECURSIVE Replay(_, _, _, _)
Replay(s, i, j, d) ==
  IF i > j THEN [st |-> s, ok |-> TRUE, d |-> ""]
  ELSE LET r == TLCEval(Exec(s, Log[i], d))
           d0 == TLCEval(Mismatch(r.out, Log[i]))
       IN IF d0 # "" THEN [st |-> s, ok |-> FALSE, d |-> d0]
          ELSE Replay(r.st, i + 1, j, d)

Candidates(k) == {D \in SUBSET RangeOf(Log[b].devs) : Cardinality(D) = k}
\* the smallest sets of known deviations that explain the trace so far, as a set of [dev, st]
Explain(k) == {x \in {[dev |-> D, r |-> Replay(Empty, b, l, D)] : D \in Candidates(k)} : x.r.ok}
RECURSIVE Explanation(_)
Explanation(k) ==
  IF k > Len(Log[b].devs) THEN [ok |-> FALSE]
  ELSE LET X == Explain(k) IN
       IF X # {} THEN LET x == CHOOSE x \in X : TRUE IN [ok |-> TRUE, dev |-> x.dev, st |-> x.r.st]
       ELSE Explanation(k + 1)

Say(tag, i, msg) == PrintT(<<tag, Log[b].n, i - b, Log[i].c, msg>>)

Step ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l] IN
     IF e.c = "begin"
     THEN b' = l /\ st' = Empty /\ dev' = {} /\ bad' = FALSE
     ELSE /\ b' = b
          /\ IF bad THEN UNCHANGED <<st, dev, bad>>
             ELSE LET r == TLCEval(Exec(st, e, dev))
                      d == Mismatch(r.out, e)
                  IN IF d = "" THEN st' = r.st /\ UNCHANGED <<dev, bad>>
                     ELSE LET x == TLCEval(Explanation(1))
                          IN IF x.ok
                             THEN /\ Say("@KNOWN", l, <<x.dev, d>>)
                                  /\ st' = x.st /\ dev' = x.dev /\ bad' = FALSE
                             ELSE /\ Say("@REJECT", l, <<d, IF Log[b].devs = <<>> THEN "" ELSE Replay(Empty, b, l, RangeOf(Log[b].devs)).d>>)
                                  /\ bad' = TRUE /\ UNCHANGED <<st, dev>>
Next == Step
Spec == Init /\ [][Next]_vars

\* one state per event: states are identified by their position
View == l
\* all events have been consumed
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
