------------------------------ MODULE TraceC15 ------------------------------
(* Nearest-neighbor graphs of points and of image patches.                   *)
EXTENDS Neighbors, TraceBase
CN == INSTANCE Constructors

NoWeight(d, sigma) == FSq(d) \div 100 > sigma
W0(d, sigma) == IF NoWeight(d, sigma) THEN 0 ELSE Weight(d, sigma)
WTol(d, sigma) == IF NoWeight(d, sigma) THEN 60 ELSE 60 + FDiv(d, sigma) \div 50000

(* Entries of the matrix against the neighborhoods.                          *)
EntryOK(got, t1, t2, w, tol, method, low) ==
  \E want \in Allowed(t1, t2, w, method, low) : Close(got, want, tol)
Nbr(r, D, i, j) ==
  IF r.type = "knn" THEN Near(D[i], i, j, r.k, 25) ELSE Within(D[i], i, j, r.eps, 8)

(* When all weights are large enough to be told from nothing: how many       *)
(* directed links an averaged entry stands for.                              *)
Links(got, w) == IF got * 4 < w THEN 0 ELSE IF got * 4 < 3 * w THEN 1 ELSE 2

GraphFail(r, X, o) ==
  LET n == Len(X)
      D == Distances(X, r.metric, r.order)
      W == M2(o.W)
      w == TLCEval([i \in 1..n |-> [j \in 1..n |-> W0(D[i][j], o.sigma)]])
      kinds == TLCEval([i \in 1..n |-> [j \in 1..n |-> Nbr(r, D, i, j)]])
      pairs == {p \in (1..n) \X (1..n) : p[1] # p[2]}
  IN IF o.W.s # <<n, n>> \/ ~AllWF(o.W) \/ ~WF(o.sigma) \/ o.sigma <= 0 THEN {"shape of the weights, width of the kernel"}
     ELSE Clause("undirected, without self-loop",
            \A i \in 1..n : W[i][i] = 0 /\ \A j \in 1..n : Close(W[i][j], W[j][i], 1))
     \cup Clause("width of the kernel",
            IF r.sigma # 0 THEN o.sigma = r.sigma
            ELSE (IF r.type = "knn" THEN Close(o.sigma, MeanKnn(D, r.k), 15)
                            ELSE (\E p \in pairs : kinds[p[1]][p[2]] = "tie") \/ Close(o.sigma, MeanRadius(D, r.eps), 15)))
     \cup Clause("links and weights",
            \A p \in pairs : EntryOK(W[p[1]][p[2]], kinds[p[1]][p[2]], kinds[p[2]][p[1]], w[p[1]][p[2]],
                                     WTol(D[p[1]][p[2]], o.sigma), r.sym, p[1] > p[2]))
     \cup Clause("each point has its k links",
            r.type = "knn" /\ r.sym = "average" /\ (\A p \in pairs : w[p[1]][p[2]] > 20000) =>
              /\ SumF(LAMBDA i : SumF(LAMBDA j : IF i = j THEN 0 ELSE Links(W[i][j], w[i][j]), n), n) = 2 * n * r.k
              /\ \A i \in 1..n : RowNnz(W, i) >= r.k)

PointsFail(r) ==
  LET X == M2(r.X)  o == r.out
      F == Features(X, r.center = "T", r.rescale = "T")
  IN Clause("features given are kept", o.Xin = r.X)
     \cup Clause("centering and rescaling of the features", IsMat(o.coords, F, IF r.rescale = "T" THEN 60 ELSE 2))
     \cup (IF o.coords.s = r.X.s THEN GraphFail(r, M2(o.coords), o) ELSE {})
     \cup Clause("parameters kept", o.attrs = r.attrs)

(* Patches: symmetric padding repeats the image as in facing mirrors.        *)
Mirror(i, n) == LET m == i % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
PatchAt(img, h, w, d, ph, pw, y, x) ==
  TLCEval([q \in 1..(ph * pw * d) |->
    LET a == (q - 1) \div (pw * d)  b == ((q - 1) \div d) % pw  ch == (q - 1) % d
        yy == Mirror(y + a - ((ph - 1) \div 2), h)
        xx == Mirror(x + b - ((pw - 1) \div 2), w)
    IN img[(yy * w + xx) * d + ch + 1]])
Patches(r) ==
  LET h == r.img.s[1]  w == r.img.s[2]  d == IF Len(r.img.s) = 3 THEN r.img.s[3] ELSE 1
      ph == r.patch[1]  pw == IF Len(r.patch) = 1 THEN r.patch[1] ELSE r.patch[2]
  IN TLCEval([i \in 1..(h * w) |-> PatchAt(r.img.v, h, w, d, ph, pw, (i - 1) \div w, (i - 1) % w)])
ImageFail(r) ==
  LET X == Patches(r)  o == r.out
      F == Features(X, r.center = "T", r.rescale = "T")
  IN Clause("the features are the patches around each pixel", IsMat(o.Xin, X, 1))
     \cup (IF o.coords.s = <<Len(X), NCols(X)>> /\ AllWF(o.coords)
           THEN Clause("centering and rescaling of the patches", IsMat(o.coords, F, IF r.rescale = "T" THEN 60 ELSE 2))
                \cup GraphFail(r, M2(o.coords), o)
           ELSE {"shape of the features"})
(* The union with a grid: o.Wp, o.Wg and o.W.                                *)
Aggregate(agg, p, g) ==
  CASE agg = "sum" -> p + g [] agg = "weighted" -> p + 2 * g [] agg = "grid" -> g [] agg = "max" -> Max2(p, g)
UnionFail(r) ==
  LET o == r.out  P == M2(o.Wp)  h == r.img.s[1]  w == r.img.s[2]  n == h * w
      G == CN!Weights("Grid2d", <<h, w>>, 0)
  IN ImageFail([r EXCEPT !.out = [Xin |-> o.Xin, coords |-> o.fcoords, W |-> o.Wp, sigma |-> o.sigma]])
     \cup (IF o.Wp.s # <<n, n>> THEN {"size of the patch graph"}
           ELSE Clause("union with the grid",
                  IsMat(o.W, [i \in 1..n |-> [j \in 1..n |-> Aggregate(r.agg, P[i][j], G[i][j])]], 4)))
     \cup Clause("coordinates of the grid", IsMat(o.coords, CN!Coords("Grid2d", <<h, w>>), 2))

FailC15(r) ==
  IF r.exc # "" THEN {r.kind \o " raised " \o r.exc}
  ELSE IF r.kind = "points" THEN PointsFail(r)
  ELSE IF r.kind = "image" THEN ImageFail(r)
  ELSE IF r.kind = "union" THEN UnionFail(r)
  ELSE {"unknown record"}
=============================================================================
