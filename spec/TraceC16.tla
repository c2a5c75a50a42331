------------------------------ MODULE TraceC16 ------------------------------
(* Kron reduction, interpolation, multiresolution, pyramid transform.        *)
EXTENDS Kron, Spectral, TraceBase

From1(a) == [i \in 1..Len(a.v) |-> a.v[i] + 1]
RecM(a, n) == a.s = <<n, n>> /\ AllWF(a)
KTol == 150

KronFail(r) ==
  LET W == M2(r.W)  keep == From1(r.keep)  m == Len(keep)  o == r.out
  IN IF ~RecM(o.W, m) \/ ~RecM(o.L, m) THEN {"shape of the reduction"}
     ELSE LET K == M2(o.W)  E == Reduced(W, keep)
          IN Clause("the Schur complement of the Laplacian", EqMat(K, E, KTol))
             \cup Clause("an undirected graph without self-loop",
                    o.directed = "F" /\ Symmetric(K) /\ ~HasLoops(K) /\ \A i, j \in 1..m : K[i][j] >= -2)
             \cup Clause("its Laplacian", EqMat(M2(o.L), CombLap(K), 4 * m) /\ o.lt = "combinatorial")
             \cup Clause("coordinates of the kept vertices", o.coords = r.coords)
             \cup Clause("resistances between kept vertices",
                    m <= 5 /\ Connected(W) => \A a, b \in 1..m : a < b =>
                       LET r0 == Resistance(CombLap(W), keep[a], keep[b])
                       IN Close(Resistance(M2(o.L), a, b), r0, KTol + r0 \div 2000))
             \cup Clause("connected if the graph is", Connected(W) => o.connected = "T")
MatFail(r) ==
  LET M == M2(r.M)  keep == From1(r.keep)
  IN Clause("the Schur complement of the matrix", IsMat(r.out.K, Schur(M, keep), KTol))

Cols(a) == IF Len(a.s) = 1 THEN <<a.v>> ELSE [c \in 1..a.s[2] |-> Col(M2(a), c)]
InterpFail(r) ==
  LET W == M2(r.W)  keep == From1(r.keep)
  IN IF r.out.F.s # <<Len(W)>> \o Tail(r.f.s) \/ ~AllWF(r.out.F) THEN {"shape of the interpolation"}
     ELSE LET f == Cols(r.f)  F == Cols(r.out.F)
          IN Clause("the interpolation extends the values",
               \A c \in DOMAIN f : Extends(W, r.eps, keep, f[c], F[c], KTol))

(* Levels of a multiresolution: out.levels[i] = [W, idx, orig, coords, K].   *)
Top(W, ref) == LET U == Transpose(M2(ref.U)) IN U[Len(U)]
Split(W, ref, idx) ==
  LET v == Top(W, ref)  n == Len(W)
      gap == ref.e.v[n] - (IF n > 1 THEN ref.e.v[n - 1] ELSE 0)
      s == Sgn(v[1])
  IN Certified(CombLap(W), ref) /\ (gap > 20000 /\ Abs(v[1]) > 1000 =>
       \A i \in 1..n : (s * v[i] > 1000 => i \in idx) /\ (s * v[i] < -1000 => i \notin idx))
LevelFail(r, k) ==
  LET o == r.out  lev == o.levels[k]  up == o.levels[k - 1]
      n == up.W.s[1]  idx == From1(lev.idx)  m == Len(idx)
  IN IF ~(\A a \in 1..m : idx[a] \in 1..n) \/ ~RecM(lev.W, m) \/ ~RecM(up.W, n) \/ lev.orig.s # <<m>> THEN {"shape of the level"}
     ELSE LET W == M2(up.W)  E == Reduced(W, idx)  K == M2(lev.W)
          IN Clause("vertices kept at a level", (\A a \in 1..(m - 1) : idx[a] < idx[a + 1]) /\ idx[1] = 1 /\ Split(W, up.ref, ToSet(idx)))
             \cup Clause("a level is smaller than the previous one", Connected(W) /\ n > 1 => m < n)
             \cup Clause("indices in the original graph", \A a \in 1..m : lev.orig.v[a] = up.orig.v[idx[a]])
             \cup Clause("a level is the reduction of the previous one",
                    IF r.sparsify = "F" THEN EqMat(K, E, KTol)
                    ELSE Symmetric(K) /\ \A i, j \in 1..m : K[i][j] # 0 => (i # j /\ E[i][j] > 0))
             \cup Clause("coordinates follow", r.sparsify = "F" =>
                    IF up.coords.s = <<-1>> THEN lev.coords.s = <<-1>>
                    ELSE IF Len(up.coords.s) = 1 THEN lev.coords.v = [a \in 1..m |-> up.coords.v[idx[a]]]
                    ELSE M2(lev.coords) = [a \in 1..m |-> M2(up.coords)[idx[a]]])
             \cup Clause("regularized reduction kept with the level", IsMat(up.K, Schur(Regularized(W, r.eps), idx), KTol))
             \cup Clause("Green kernel kept with the level", Close(up.green, FDiv(S, r.eps + S), 4))
             \cup Clause("number of the level", lev.level = k - 2)
             \cup Clause("largest eigenvalue of the level",
                    LET top == EMax(up.ref)
                    IN up.lmax >= top - (top \div (IF n > 10 THEN 8 ELSE 500)) - 20 /\ up.lmax <= top + (top \div 50) + 20)
LevelsFail(r) ==
  LET o == r.out
  IN IF Len(o.levels) # r.levels + 1 THEN {"number of levels"}
     ELSE Clause("the first level is the graph", o.same = "T" /\ o.levels[1].W = r.W /\ o.levels[1].orig.v = [i \in 1..r.W.s[1] |-> i - 1])
          \cup UNION {LevelFail(r, k) : k \in 2..Len(o.levels)}

PyramidFail(r) ==
  LET o == r.out  L == r.levels
      sh(k) == <<r.Ws[k].s[1]>> \o Tail(r.f.s)
  IN IF Len(o.ca) # L + 1 \/ Len(o.pe) # L \/ Len(o.back) # L + 1
        \/ (\E k \in 1..(L + 1) : o.ca[k].s # sh(k) \/ ~AllWF(o.ca[k]) \/ o.back[k].s # sh(k))
        \/ (\E k \in 1..L : o.pe[k].s # sh(k) \/ ~AllWF(o.pe[k]))
     THEN {"shape of the pyramid"}
     ELSE LET nc == Len(Cols(r.f))
              at(a, c) == Cols(a)[c]
              idx(k) == From1(r.idx[k])          \* kept from level k to k + 1
              low(k, c) == Poly(CombLap(M2(r.Ws[k])), r.polys[k], at(o.ca[k], c))
              pred(k, c) == Sub(at(o.ca[k], c), at(o.pe[k], c))
          IN Clause("the analysis starts from the signal", o.ca[1] = r.f)
             \cup Clause("approximations are filtered and downsampled",
                    \A k \in 1..L, c \in 1..nc : LET y == low(k, c)
                      IN \A a \in 1..Len(idx(k)) : Close(at(o.ca[k + 1], c)[a], y[idx(k)[a]], KTol))
             \cup Clause("errors are those of the interpolation",
                    r.sharp = "T" => \A k \in 1..L, c \in 1..nc :
                      Extends(M2(r.Ws[k]), r.eps, idx(k), at(o.ca[k + 1], c), pred(k, c), KTol))
             \cup Clause("synthesis returns the signal", o.rec.s = r.f.s /\ EqVec(o.rec.v, r.f.v, 20))
             \cup Clause("synthesis returns the approximations",
                    \A k \in 1..(L + 1) : EqVec(o.back[k].v, o.ca[k].v, 20))

FailC16(r) ==
  IF r.exc # "" THEN {r.kind \o " raised " \o r.exc}
  ELSE CASE r.kind = "kron" -> KronFail(r)
         [] r.kind = "matrix" -> MatFail(r)
         [] r.kind = "interpolate" -> InterpFail(r)
         [] r.kind = "levels" -> LevelsFail(r)
         [] r.kind = "pyramid" -> PyramidFail(r)
         [] OTHER -> {"unknown record"}
=============================================================================
