------------------------------ MODULE Neighbors ------------------------------
(* Nearest-neighbor graphs of points, as rows of coordinates.                *)
EXTENDS GraphCore

(* The p-th root, for p-norms.                                               *)
RECURSIVE RootIn(_, _, _, _, _)
RootIn(a, p, lo, hi, n) ==
  IF n = 0 \/ hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF FPow(m, p) <= a THEN RootIn(a, p, m, hi, n - 1) ELSE RootIn(a, p, lo, m, n - 1)
FRoot(a, p) ==
  IF p = 1 THEN a ELSE IF p = 2 THEN FSqrt(a)
  ELSE IF a < S THEN RootIn(a, p, 0, S, 30)
  ELSE RootIn(a, p, S, Min2(a, IF p = 3 THEN 12 * S ELSE 6 * S), 40)

AbsDiff(x, y) == TLCEval([d \in 1..Len(x) |-> Abs(x[d] - y[d])])
(* Differences are scaled by the largest, so that small ones keep precision. *)
PNorm(v, p) ==
  LET m == MaxSeq(v)
  IN IF m = 0 THEN 0
     ELSE IF p = 1 THEN SumSeq(v)
     ELSE FMul(m, FRoot(SumSeq([d \in 1..Len(v) |-> FPow(FDiv(v[d], m), p)]), p))
(* metric: euclidean, manhattan, max_dist, minkowski (of the given order).   *)
Dist(x, y, metric, order) ==
  LET v == AbsDiff(x, y)
  IN CASE metric = "euclidean" -> PNorm(v, 2)
       [] metric = "manhattan" -> PNorm(v, 1)
       [] metric = "max_dist" -> MaxSeq(v)
       [] metric = "minkowski" -> PNorm(v, order)
Distances(X, metric, order) ==
  LET n == Len(X)
      half == TLCEval([i \in 1..n |-> TLCEval([j \in 1..i |-> IF i = j THEN 0 ELSE Dist(X[i], X[j], metric, order)])])
  IN TLCEval([i \in 1..n |-> [j \in 1..n |-> IF j <= i THEN half[i][j] ELSE half[j][i]]])

(* Whether j is one of the k nearest others of i: "yes", "no", or "tie" when *)
(* distances within tol of each other leave it open.                         *)
Near(d, i, j, k, tol) ==   \* d: the distances from i
  IF i = j THEN "no"
  ELSE LET others == (1..Len(d)) \ {i, j}
       IN IF Cardinality({l \in others : d[l] < d[j] - tol}) >= k THEN "no"
          ELSE IF Cardinality({l \in others : d[l] <= d[j] + tol}) < k THEN "yes" ELSE "tie"
Within(d, i, j, eps, tol) ==
  IF i = j THEN "no" ELSE IF d[j] <= eps - tol THEN "yes" ELSE IF d[j] > eps + tol THEN "no" ELSE "tie"

(* The sum of the distances from i to its k nearest others.                  *)
KSmallest(d, i, k) ==
  LET s == SortSeq([j \in 1..(Len(d) - 1) |-> IF j < i THEN d[j] ELSE d[j + 1]], LAMBDA a, b : a < b)
  IN SumSeq(SubSeq(s, 1, k))
MeanKnn(D, k) ==
  LET n == Len(D) IN (SumSeq([i \in 1..n |-> KSmallest(D[i], i, k) \div k])) \div n
(* The mean distance of the pairs within eps (1 if there is none).           *)
MeanRadius(D, eps) ==
  LET n == Len(D)
      pairs == SetToSeq({q \in (1..n) \X (1..n) : q[1] # q[2] /\ D[q[1]][q[2]] <= eps})
  IN IF Len(pairs) = 0 THEN S ELSE SumSeq([t \in 1..Len(pairs) |-> D[pairs[t][1]][pairs[t][2]]]) \div Len(pairs)

Weight(d, sigma) == FExp(-FDiv(FSq(d), sigma))

(* The weights an entry of the symmetrized matrix may have: a, b what is     *)
(* known of the two directions, w their common weight, low whether the entry *)
(* is below the diagonal.                                                    *)
Some(a) == IF a = "tie" THEN {0, 1} ELSE IF a = "yes" THEN {1} ELSE {0}
Combined(x, y, w, method, low) ==
  CASE method = "average" -> (w * (x + y)) \div 2
    [] method \in {"maximum", "fill"} -> IF x + y > 0 THEN w ELSE 0
    [] method = "tril" -> IF low THEN w * x ELSE w * y
    [] method = "triu" -> IF low THEN w * y ELSE w * x
Allowed(a, b, w, method, low) == {Combined(x, y, w, method, low) : x \in Some(a), y \in Some(b)}

(* The features: centered, and rescaled to a bounding radius of N^(1/d)/10.  *)
Mean(X, d) == SumSeq(Col(X, d)) \div Len(X)
Centered(X) == LET m == [d \in 1..NCols(X) |-> Mean(X, d)]
               IN TLCEval([i \in 1..Len(X) |-> Sub(X[i], m)])
Extent(X) == [d \in 1..NCols(X) |-> MaxSeq(Col(X, d)) - MinSeq(Col(X, d))]
Rescaled(X) ==
  LET radius == PNorm(Extent(X), 2) \div 2
      want == FRoot(Len(X) * S, Min2(NCols(X), 3)) \div 10
      f == FDiv(want, radius)
  IN TLCEval([i \in 1..Len(X) |-> Scale(f, X[i])])
Features(X, center, rescale) ==
  LET Y == IF center THEN Centered(X) ELSE X IN IF rescale THEN Rescaled(Y) ELSE Y
=============================================================================
