------------------------------ MODULE TraceC23 ------------------------------
(* Layouts.                                                                  *)
EXTENDS Layout, TraceBase

IntSet(s) == {s[i] : i \in 1..Len(s)}
Distinct(v) == Cardinality(IntSet(v)) = Len(v)
Bits(W) == TLCEval([i \in 1..Len(W) |-> [j \in 1..Len(W) |-> IF W[i][j] # 0 THEN 1 ELSE 0]])
InUnit(v) == \A i \in 1..Len(v) : v[i] >= 0 /\ v[i] <= S
(* Forty values drawn uniformly leave a quarter of the range empty once in   *)
(* 10^5; hundred, once in 10^12.                                             *)
Spread(v) == Len(v) >= 100 => \A q \in 0..3 : \E i \in 1..Len(v) : v[i] >= q * 250000 /\ v[i] <= (q + 1) * 250000

ArrayFail(r) ==
  Clause("the given coordinates", r.out.exact.s = Squeezed(r.given.s) /\ r.out.exact.v = r.given.v)
RandomFail(r, d) ==
  LET o == r.out
  IN Clause("random points, one per vertex", o.coords.s = <<r.n, d>>)
     \cup Clause("random points in the unit square or cube", AllWF(o.coords) /\ InUnit(o.coords.v) /\ Spread(o.coords.v))
     \cup Clause("random points are distinct", Distinct(o.exact.v))
SpringFail(r) ==
  LET o == r.out  n == r.n  d == r.dim  fixed == {f + 1 : f \in IntSet(r.fixed)}
      A == Bits(M2(r.W))
  IN IF o.coords.s # <<n, d>> \/ ~AllWF(o.coords) THEN {"spring layout of the requested dimension"}
     ELSE LET X == M2(o.coords)  start == M2(r.pos)  c == r.center.v
              m == ColMeans(X)
              dom == IF r.haspos = "F" \/ MaxAbsSeq(r.pos.v) = 0 THEN S ELSE MaxAbsSeq(r.pos.v)
              k == IF r.k > 0 THEN r.k ELSE FDiv(IF fixed = {} THEN S ELSE dom, FSqrt(n * S))
              ref == IF r.iters <= 3 /\ n <= 7 THEN Anneal(start, A, k, fixed, r.iters) ELSE <<>>
          IN IF fixed = {}
             THEN Clause("spring layout around the center", \A a \in 1..d : Close(m[a], c[a], 5))
                  \cup Clause("spring layout of the requested scale",
                         Close(Extent(X, c), IF Extent(start, start[1]) = 0 THEN 0 ELSE r.scale, 5))
                  \cup Clause("forces of the spring layout",
                         ref # <<>> => LET e == Extent(ref, ColMeans(ref))
                           IN e > 100000 => EqMat(X, Fitted(ref, r.scale, c), 1000 + r.scale \div 1000))
             ELSE Clause("fixed vertices stay fixed", \A i \in fixed : EqVec(X[i], start[i], 2))
                  \cup Clause("forces of the spring layout", ref # <<>> => EqMat(X, ref, 1000))
EigenFail(r, d) ==
  LET o == r.out  L == Lap(M2(r.W), r.lt)  n == Len(L)
  IN IF o.coords.s # <<n, d>> \/ ~AllWF(o.coords) THEN {"shape of the eigenmap"}
     ELSE LET X == M2(o.coords)  e == [k \in 1..d |-> r.ref.e.v[k + 1]]
              u == Col(M2(r.ref.U), 1)  Xt == Transpose(X)
          IN Clause("first non-trivial eigenvectors",
               Certified(L, r.ref) /\ Bounded(o.coords, TWO) /\ Orthonormal(X, EigTol(L)) /\ EigenPairs(L, e, X, EigTol(L))
               /\ \A k \in 1..d : Close(Dot(u, Xt[k]), 0, EigTol(L)))
CommunityFail(r) ==
  LET o == r.out  com == r.com  sz == CommunitySizes(com)  nc == Len(sz)
  IN IF o.coords.s # <<r.n, 2>> \/ ~AllWF(o.coords) THEN {"shape of the community layout"}
     ELSE LET X == M2(o.coords)
              off == TLCEval([i \in 1..r.n |-> Sub(X[i], CommunityCenter(com[i] + 1, nc, r.rad))])
          IN Clause("gathered around the centers",
               \A i \in 1..r.n : NormSq(off[i]) <= sz[com[i] + 1] * S + 1000)
             \cup Clause("positions within the communities are random", Distinct([i \in 1..r.n |-> off[i][1]]))
             \cup Clause("centers and radius recorded",
                  o.centers.s = <<nc, 2>> /\ o.rad = r.rad /\ o.sizes = sz
                  /\ EqMat(M2(o.centers), [c \in 1..nc |-> CommunityCenter(c, nc, r.rad)], 10 + r.rad \div 100000))
RandomLayouts == {"random2D", "random3D", "spring", "community2D"}
FailC23(r) ==
  IF r.exc # "" THEN {r.kind \o " raised " \o r.exc}
  ELSE LET o == r.out  l == r.layout IN
  Clause("nothing but the coordinates changes", o.stays = "T") \cup
  (IF r.refused = "T"
   THEN Clause("refused", o.err # "")
        \cup (IF "why" \in DOMAIN r THEN Clause("kind of the error", o.err = r.why) ELSE {})
        \cup Clause("a refused layout leaves the coordinates in place", o.exact = r.prev)
   ELSE IF o.err # "" THEN {l \o " raised " \o o.err}
   ELSE (CASE l = "array" -> ArrayFail(r)
          [] l = "line1D" -> Clause("line", IsVec(o.coords, Line1D(r.n), 0))
          [] l = "line2D" -> Clause("line", IsMat(o.coords, Line2D(r.n), 0))
          [] l = "ring2D" -> Clause("ring", IsMat(o.coords, Ring2D(r.n), 5))
          [] l = "random2D" -> RandomFail(r, 2)
          [] l = "random3D" -> RandomFail(r, 3)
          [] l = "spring" -> SpringFail(r)
          [] l = "laplacian_eigenmap2D" -> EigenFail(r, 2)
          [] l = "laplacian_eigenmap3D" -> EigenFail(r, 3)
          [] l = "community2D" -> CommunityFail(r)
          [] OTHER -> {"unknown record"})
        \cup (IF l \in RandomLayouts /\ r.draws = "T"
              THEN Clause("reproducible given a seed", o.again = o.exact)
                   \cup Clause("depends on the seed", o.other # o.exact)
              ELSE {}))
=============================================================================
