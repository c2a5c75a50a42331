------------------------------- MODULE Layout -------------------------------
(* Where the vertices are placed.                                            *)
EXTENDS Spectral

(* The outcome of setting coordinates: either every vertex is placed, or the *)
(* call is refused and nothing moves.                                        *)
Squeezed(s) == SelectSeq(s, LAMBDA k : k # 1)
ArrayAccepted(s, n) == LET q == Squeezed(s) IN q = <<n>> \/ q = <<n, 2>> \/ q = <<n, 3>>
Line1D(n) == [i \in 1..n |-> (i - 1) * S]
Line2D(n) == [i \in 1..n |-> <<(i - 1) * S, 0>>]
OnCircle(k, n) == LET a == FDiv(k * PI2, n * S) IN <<FCos(a), FSin(a)>>
Ring2D(n) == [i \in 1..n |-> OnCircle(i - 1, n)]

(* The force-directed algorithm of Fruchterman and Reingold, on positions P  *)
(* (list of rows). Vertices repel each other with k^2 / distance, neighbors  *)
(* attract each other with distance^2 / k; every vertex that is not fixed    *)
(* moves by the temperature t in the direction of the sum.                   *)
Delta(P, i, j) == [c \in 1..Len(P[1]) |-> P[i][c] - P[j][c]]
NormSq(v) == Dot(v, v)
Distances(P) == [i \in 1..Len(P) |-> [j \in 1..Len(P) |-> FSqrt(NormSq(Delta(P, i, j)))]]
Tame(P) ==       \* numbers that fixed point can represent
  LET D == TLCEval(Distances(P))
  IN \A i, j \in 1..Len(P) : D[i][j] < 20 * S /\ (P[i] = P[j] \/ D[i][j] > 150000)
Force(P, A, k, i) ==
  LET n == Len(P)
      f(j) == LET v == Delta(P, i, j)  d == FSqrt(NormSq(v))
              IN IF d = 0 THEN Zeros(Len(P[1]))
                 ELSE LET w == FDiv(FSq(k), FSq(d)) - (IF A[i][j] = 1 THEN FDiv(d, k) ELSE 0)
                      IN Scale(w, v)
  IN FoldLeftDomain(LAMBDA acc, j : Add(acc, f(j)), Zeros(Len(P[1])), [j \in 1..n |-> 0])
Length(v) ==     \* of a force, which may be large
  LET m == MaxAbsSeq(v)
  IN IF m < 10 * S THEN FSqrt(NormSq(v)) ELSE FMul(FSqrt(NormSq([c \in 1..Len(v) |-> FDiv(v[c], m)])), m)
Ambiguous(P, A, k, fixed) ==   \* no direction worth speaking of
  \E i \in (1..Len(P)) \ fixed : Length(Force(P, A, k, i)) < 50000
Moved(P, A, k, t, fixed) ==
  TLCEval([i \in 1..Len(P) |->
     IF i \in fixed THEN P[i]
     ELSE LET v == Force(P, A, k, i)  l == Length(v)
          IN [c \in 1..Len(v) |-> P[i][c] + FDiv(FMul(v[c], t), l)]])
RECURSIVE Relaxed(_, _, _, _, _, _, _)
(* The positions after the remaining iterations, or <<>> if this can't tell. *)
Relaxed(P, A, k, t, dt, fixed, left) ==
  IF left = 0 THEN P
  ELSE IF ~Tame(P) \/ Ambiguous(P, A, k, fixed) THEN <<>>
  ELSE Relaxed(Moved(P, A, k, t, fixed), A, k, t - dt, dt, fixed, left - 1)
Anneal(P, A, k, fixed, iters) ==
  LET t == S \div 10 IN Relaxed(P, A, k, t, t \div (iters + 1), fixed, iters)

(* Centered, and scaled such that it fits in [-scale, scale] on all axes.    *)
ColMeans(P) == [c \in 1..Len(P[1]) |-> SumSeq(Col(P, c)) \div Len(P)]
Extent(P, c) == MaxSeq([i \in 1..Len(P) |-> MaxAbsSeq(Sub(P[i], c))])
Fitted(P, scale, center) ==
  LET m == ColMeans(P)  e == Extent(P, m)
  IN TLCEval([i \in 1..Len(P) |-> [c \in 1..Len(m) |->
       center[c] + (IF e = 0 THEN 0 ELSE FDiv(FMul(P[i][c] - m[c], scale), e))]])

(* Communities 0, 1, ... around centers on a circle.                         *)
CommunitySizes(com) == [c \in 1..(MaxSeq(com) + 1) |-> Cardinality({i \in 1..Len(com) : com[i] = c - 1})]
Legal(com) == \A c \in 0..MaxSeq(com) : \E i \in 1..Len(com) : com[i] = c
CommunityCenter(c, nc, rad) ==    \* c from 1
  LET p == OnCircle(c, nc) IN <<FMul(rad, p[1]), FMul(rad, p[2])>>
=============================================================================
