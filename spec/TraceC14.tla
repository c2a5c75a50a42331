------------------------------ MODULE TraceC14 ------------------------------
(* Random graphs: what holds whatever is drawn, frequencies over many seeds, *)
(* and that the seed, not the global generator, decides.                     *)
EXTENDS TraceC15, RandomGraphs

Square(a, n) == a.s = <<n, n>>
From1(a) == [i \in 1..Len(a.v) |-> a.v[i] + 1]
Truth(f) == f = "T"

(* ---- block models ---- *)
SBMFail(r) ==
  LET P == IF r.M.s = <<-1>> THEN Blocks(r.k, r.p.v, r.q.v) ELSE M2(r.M)
      o == r.out  dir == Truth(r.directed)  loops == Truth(r.loops)  con == Truth(r.connected)
  IN IF r.exc # "" THEN
       Clause("block model refused",
         r.exc = "ValueError" /\ (IF r.z.s = <<-1>> THEN con ELSE MayFail(From1(r.z), P, dir, con)))
     ELSE IF ~Square(o.W, r.N) \/ o.z.s # <<r.N>> \/ (\E i \in DOMAIN o.z.v : o.z.v[i] \notin 0..(r.k - 1))
          THEN {"shape of the block model"}
     ELSE LET W == M2(o.W)  z == From1(o.z)
          IN Clause("edges of the block model", SBMAdmits(W, z, P, dir, loops))
             \cup Clause("connected as requested", con => Connected(W) /\ ~MustFail(z, P, dir, con))
             \cup Clause("blocks", IF r.z.s # <<-1>> THEN o.z = r.z ELSE \A i \in 1..(r.N - 1) : z[i] <= z[i + 1])
             \cup Clause("probabilities kept", IsMat(o.M, P, 1))
             \cup Clause("information on the blocks",
                    /\ o.node_com = o.z
                    /\ Len(o.sizes.v) <= r.k
                    /\ \A c \in 1..r.k : Sizes(z, r.k)[c] = IF c <= Len(o.sizes.v) THEN o.sizes.v[c] ELSE 0
                    /\ Eq(o.rad, FSqrt(r.N * S), 3))

(* Counts of edges over many seeds: out.counts[t] of r.draws[t], each with   *)
(* probability r.prob[t] (in hundredths).                                    *)
CountsFail(r) ==
  IF Len(r.out.counts) # Len(r.draws) THEN {"shape of the counts"}
  ELSE Clause("frequencies over the seeds",
         \A t \in DOMAIN r.draws : Plausible(r.out.counts[t], r.draws[t], r.prob[t]))

(* ---- attachment, regular ---- *)
BAFail(r) ==
  IF ~Square(r.out.W, r.N) THEN {"shape of the attachment graph"}
  ELSE Clause("each new vertex linked to m older ones", BAAdmits(M2(r.out.W), r.m0, r.m))
RegularFail(r) ==
  IF ~Square(r.out.W, r.N) THEN {"shape of the regular graph"}
  ELSE LET W == M2(r.out.W)
       IN Clause("simple", Simple(W)) \cup Clause("regular", RegularAdmits(W, r.k))

(* ---- communities ---- *)
Near1(dists, W, kinds, i, j) ==
  LET t == {kinds[i][j], kinds[j][i]}
  IN IF "yes" \in t THEN W[i][j] = S ELSE IF t = {"no"} THEN W[i][j] = 0 ELSE TRUE
CommunityFail(r) ==
  LET o == r.out  N == r.N
  IN IF ~Square(o.W, N) \/ o.coords.s # <<N, 2>> \/ o.com.s # <<N>> \/ o.sizes.s # <<r.Nc>> \/ o.centers.s # <<r.Nc, 2>>
        \/ (\E i \in DOMAIN o.com.v : o.com.v[i] \notin 0..(r.Nc - 1)) \/ ~AllWF(o.coords) \/ ~AllWF(o.centers)
     THEN {"shape of the communities"}
     ELSE LET W == M2(o.W)  com == From1(o.com)  sizes == Sizes(com, r.Nc)
              X == M2(o.coords)  C == M2(o.centers)
              D == Distances(X, "euclidean", 0)
              kinds == TLCEval([i \in 1..N |-> [j \in 1..N |->
                 IF i = j \/ com[i] # com[j] THEN "no"
                 ELSE IF r.how = "eps" THEN Within(D[i], i, j, r.eps, 8)
                 ELSE LET mates == {l \in 1..N : com[l] = com[i]} \ {i, j}
                      IN IF Cardinality({l \in mates : D[i][l] < D[i][j] - 8}) >= r.kn THEN "no"
                         ELSE IF Cardinality({l \in mates : D[i][l] <= D[i][j] + 8}) < r.kn THEN "yes" ELSE "tie"]])
          IN Clause("simple", Simple(W))
             \cup Clause("communities in order", \A i \in 1..(N - 1) : com[i] <= com[i + 1])
             \cup Clause("sizes of the communities",
                    /\ o.sizes.v = sizes
                    /\ (r.sizes.s # <<-1>> => sizes = r.sizes.v)
                    /\ (r.sizes.s = <<-1>> => \A c \in 1..r.Nc : sizes[c] >= r.minc))
             \cup Clause("edges within the communities",
                    IF r.how = "density"
                    THEN \A c \in 1..r.Nc : IntraCount(W, com, c) = (Half(sizes[c]) * r.dens) \div S
                    ELSE \A i, j \in 1..N : i < j /\ com[i] = com[j] => Near1(D, W, kinds, i, j))
             \cup Clause("edges between communities",
                    IF r.world = -1 THEN InterCount(W, com) = InterPairs(com) \div N
                    ELSE InterCount(W, com) = (InterPairs(com) * r.world) \div S)
             \cup Clause("radius of the world", Eq(o.rad, FMul(r.ratio, FSqrt(N * S)), 20))
             \cup Clause("centers of the communities",
                    \A c \in 1..r.Nc : LET p == CN!OnCircle(c % r.Nc, r.Nc)
                                       IN Close(C[c][1], FMul(o.rad, p[1]), 60 + o.rad \div 40000) /\ Close(C[c][2], FMul(o.rad, p[2]), 60 + o.rad \div 40000))
             \cup Clause("vertices around their center",
                    \A i \in 1..N : PNorm(AbsDiff(X[i], C[com[i]]), 2) <= FSqrt(sizes[com[i]] * S) + 60)

(* ---- rings ---- *)
RingFail(r) ==
  LET o == r.out  n == Len(o.angles.v)  a == o.angles.v
  IN IF (r.angles.s # <<-1>> /\ n # Len(r.angles.v)) \/ (r.angles.s = <<-1>> /\ n # r.N) \/ ~Square(o.W, n) \/ o.coords.s # <<n, 2>> \/ ~AllWF(o.angles)
     THEN {"shape of the ring"}
     ELSE LET W == M2(o.W)  X == M2(o.coords)  width == PI2 \div n
              nxt(i) == IF i < n THEN i + 1 ELSE 1
          IN Clause("angles sorted on the circle",
                 /\ \A i \in 1..(n - 1) : a[i] <= a[i + 1]
                 /\ a[1] >= 0 /\ a[n] < PI2
                 /\ (r.angles.s # <<-1>> => a = SortSeq(r.angles.v, LAMBDA x, y : x < y)))
             \cup Clause("a ring", \A i, j \in 1..n : W[i][j] = W[j][i] /\ ((j = nxt(i) \/ i = nxt(j)) = (W[i][j] # 0)))
             \cup Clause("weights inverse to the distance",
                    \A i \in 1..n : LET w == W[i][nxt(i)]
                                    IN w < 400 * S => Close(FMul(w, Gap(a, i)), width, 6 + 2 * (w \div S)))
             \cup Clause("on the circle", \A i \in 1..n : Close(X[i][1], FCos(a[i]), 12) /\ Close(X[i][2], FSin(a[i]), 12))

(* ---- points, with nearest-neighbor graphs over them ---- *)
Dims(X, lo, hi) == \A i \in 1..Len(X), d \in 1..NCols(X) : X[i][d] >= lo /\ X[i][d] <= hi
PlacedOK(r, X) ==
  LET n == Len(X)
  IN CASE r.c = "Sensor" -> Dims(X, 0, S)
       [] r.c = "SensorGrid" ->
            LET m == r.side  cell(x) == Min2((x * m) \div S, m - 1)
            IN Dims(X, 0, S) /\ \A i, j \in 1..m : Cardinality({p \in 1..n :
                 LET y == X[p] IN \E a \in {0, 3, -3}, b \in {0, 3, -3} : cell(Max2(0, y[1] + a)) = i - 1 /\ cell(Max2(0, y[2] + b)) = j - 1}) >= 1
       [] r.c = "Sphere" -> \A i \in 1..n : Close(PNorm(AbsDiff(X[i], Zeros(NCols(X))), 2), r.radius, 10 + r.radius \div 100000)
       [] r.c = "Cube" ->
            /\ Dims(X, 0, r.radius)
            /\ NCols(X) = 3 =>
                 \A d \in 1..3, side \in {0, r.radius} : Cardinality({i \in 1..n : X[i][d] = side}) >= n \div 6
                 /\ \A i \in 1..n : \E f \in 1..3 : X[i][f] \in {0, r.radius}
       [] r.c = "TwoMoons" ->
            LET n1 == n \div 2  h == (r.distance - S) \div 2
            IN r.exact = "T" => \A i \in 1..n :
                 LET c == IF i <= n1 THEN <<HALF, -h>> ELSE <<-HALF, h>>
                     y == X[i][2] - c[2]
                 IN Close(PNorm(AbsDiff(X[i], c), 2), S, 20) /\ (IF i <= n1 THEN y <= 2 ELSE y >= -2)
PlacedFail(r) ==
  LET o == r.out
  IN IF o.coords.s # <<r.n, r.dim>> \/ ~AllWF(o.coords) THEN {"shape of the coordinates"}
     ELSE Clause("points where documented", PlacedOK(r, M2(o.coords)))
          \cup Clause("labels of the moons", r.c = "TwoMoons" => o.labels = [i \in 1..r.n |-> IF i <= r.n \div 2 THEN 0 ELSE 1])
          \cup GraphFail([r EXCEPT !.kind = "nn"] @@ [type |-> "knn", metric |-> "euclidean", order |-> 0, sym |-> "average"],
                         M2(o.coords), o)

(* The roll: spirals of angle between pi a and pi b.                         *)
RollFail(r) ==
  LET o == r.out
  IN IF o.x.s # <<r.dim, r.N>> \/ ~Square(o.W, r.N) \/ o.coords.s # <<r.N, r.dim>> \/ ~AllWF(o.x) \/ ~AllWF(o.coords)
     THEN {"shape of the roll"}
     ELSE LET x == M2(o.x)  Y == M2(o.coords)  W == M2(o.W)
              p == x[1]  q == x[r.dim]
              mean == TLCEval([d \in 1..r.dim |-> SumSeq(x[d]) \div r.N])
              top == MaxSeq([d \in 1..r.dim |-> MaxSeq(x[d]) - mean[d]])
              D == Distances(Y, "euclidean", 0)
          IN Clause("noise off the roll",
                 r.noise = "T" => \E i \in 1..r.N :
                   LET t == PNorm(<<Abs(p[i]), Abs(q[i])>>, 2)
                   IN ~Close(p[i], FMul(t, FCos(t)), 1000) \/ ~Close(q[i], FMul(t, FSin(t)), 1000))
             \cup Clause("on the roll",
                 r.noise = "T" \/ \A i \in 1..r.N :
                   LET t == PNorm(<<Abs(p[i]), Abs(q[i])>>, 2)
                   IN /\ t >= FMul(PI, r.a) - 20 /\ t <= FMul(PI, r.b) + 20
                      /\ Close(p[i], FMul(t, FCos(t)), 600) /\ Close(q[i], FMul(t, FSin(t)), 600)
                      /\ (r.dim = 3 => x[2][i] >= 0 /\ x[2][i] <= 21 * S))
             \cup Clause("centered and scaled",
                 \A i \in 1..r.N, d \in 1..r.dim : Close(FMul(Y[i][d], top), x[d][i] - mean[d], 60))
             \cup Clause("weights of the roll",
                 \A i, j \in 1..r.N :
                   LET e == FDiv(FSq(D[i][j]), 2 * FSq(r.s))
                       w == IF FSq(D[i][j]) > 14 * FSq(r.s) * 2 THEN 0 ELSE FExp(-e)
                   IN IF i = j THEN W[i][i] = 0
                      ELSE IF w > r.thresh + 100 THEN Close(W[i][j], w, 60 + FDiv(100, r.s))
                      ELSE W[i][j] = 0 \/ (W[i][j] >= r.thresh - 1 /\ Close(W[i][j], w, 60 + FDiv(100, r.s))))

(* Sensors of the network of David: linked within a distance, by a Gaussian  *)
(* of 0.6 there.                                                             *)
DavidFail(r) ==
  LET o == r.out
  IN IF o.coords.s # <<r.N, 2>> \/ ~Square(o.W, r.N) \/ ~AllWF(o.coords) THEN {"shape of the network"}
     ELSE LET X == M2(o.coords)  W == M2(o.W)  D == Distances(X, "euclidean", 0)
              cut == 218300 - (125000 * r.N * 10) \div 4361
          IN Clause("points where documented", Dims(X, 0, S))
             \cup Clause("links and weights",
                 \A i, j \in 1..r.N : IF i = j \/ D[i][j] > cut + 20 THEN W[i][j] = 0
                   ELSE (D[i][j] > cut - 20 /\ W[i][j] = 0)
                        \/ Close(W[i][j], FExp(FMul(-510826, FSq(FDiv(D[i][j], cut)))), 300))

(* ---- seeds ---- *)
SeedFail(r) ==
  Clause("the same seed gives the same graph", r.out.first = r.out.again)
  \cup Clause("other seeds give other graphs", r.out.first # r.out.other)
  \cup Clause("without a seed, graphs differ", r.out.free1 # r.out.free2)
  \cup Clause("the global generator is left alone", r.out.state0 = r.out.state1)

FailC14(r) ==
  IF r.kind = "sbm" THEN SBMFail(r)
  ELSE IF r.exc # "" THEN {r.kind \o " raised " \o r.exc}
  ELSE CASE r.kind = "counts" -> CountsFail(r)
         [] r.kind = "attachment" -> BAFail(r)
         [] r.kind = "regular" -> RegularFail(r)
         [] r.kind = "community" -> CommunityFail(r)
         [] r.kind = "ring" -> RingFail(r)
         [] r.kind = "placed" -> PlacedFail(r)
         [] r.kind = "roll" -> RollFail(r)
         [] r.kind = "david" -> DavidFail(r)
         [] r.kind = "seeds" -> SeedFail(r)
         [] OTHER -> {"unknown record"}
=============================================================================
