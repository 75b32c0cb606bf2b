------------------------------- MODULE Grid -------------------------------
(* Parameter grids.  A distribution over a grid is a flat sequence of       *)
(* numbers in row-major order (the last axis varies fastest).               *)
EXTENDS RealNumbers, Integers, TLC

\* a sequence, evaluated once
Mk(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])

\* equally spaced?  (second differences vanish)
Regular(v) == \A i \in 1..(Len(v) - 2) :
  RLe(RAbs(RSub(RSub(v[i+2], v[i+1]), RSub(v[i+1], v[i]))), "1e-10")
\* grid spacing; unequally spaced (categorical) values have no spacing: 1
Lattice(v) == IF Regular(v) THEN RAbs(RSub(v[1], v[2])) ELSE R(1)

RECURSIVE IProd(_)
IProd(s) == IF s = <<>> THEN 1 ELSE Head(s) * IProd(Tail(s))

MkGrid(axes) ==
  LET ax == Mk(Len(axes), LAMBDA i : VR(axes[i]))
      sh == Mk(Len(axes), LAMBDA i : Len(axes[i]))
      lc == Mk(Len(axes), LAMBDA i : Lattice(ax[i]))
  IN [axes |-> ax, shape |-> sh, lc |-> lc, vol |-> RProd(lc), n |-> IProd(sh)]

Stride(sh, a) == IProd(SubSeq(sh, a + 1, Len(sh)))
\* coordinate (1-based) along axis a of the k-th grid point
Coord(sh, a, k) == (((k - 1) \div Stride(sh, a)) % sh[a]) + 1
\* value of parameter a at every grid point
Points(G, a) == Mk(G.n, LAMBDA k : G.axes[a][Coord(G.shape, a, k)])
Flat(G) == Mk(G.n, LAMBDA k : RDiv(1, G.n))

\* sum over all axes but a
MarginalOf(sh, p, a) ==
  Mk(sh[a], LAMBDA j :
     RSum([k \in 1..Len(p) |-> IF Coord(sh, a, k) = j THEN p[k] ELSE R(0)]))
\* sum over all axes but a and b, as a matrix with rows along a and columns along b
Marginal2(sh, p, a, b) ==
  Mk(sh[a], LAMBDA i : Mk(sh[b], LAMBDA j :
     RSum([k \in 1..Len(p) |->
             IF Coord(sh, a, k) = i /\ Coord(sh, b, k) = j THEN p[k] ELSE R(0)])))

\* apply a map of sequences (length shape[a]) to every line along axis a
AlongAxis(sh, p, a, F(_)) ==
  LET st == Stride(sh, a)
      base(k) == k - (Coord(sh, a, k) - 1) * st
      bases == {k \in 1..Len(p) : Coord(sh, a, k) = 1}
      done == TLCEval([b \in bases |-> F([j \in 1..sh[a] |-> p[b + (j - 1) * st]])])
  IN Mk(Len(p), LAMBDA k : done[base(k)][Coord(sh, a, k)])

Mean(p, values) == VDot(p, values)

RECURSIVE IndexOf(_, _)
IndexOf(s, x) == IF s = <<>> THEN 0
                 ELSE IF Head(s) = x THEN 1
                 ELSE LET r == IndexOf(Tail(s), x) IN IF r = 0 THEN 0 ELSE r + 1
\* index of the number x in a sequence of numbers (0: not contained)
IndexOfReal(s, x) ==
  LET hits == {i \in 1..Len(s) : REq(s[i], x)}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RangeOf(s) == {s[i] : i \in 1..Len(s)}
HasDup(s) == \E i, j \in 1..Len(s) : i # j /\ s[i] = s[j]
=============================================================================
