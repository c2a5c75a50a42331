-------------------------------- MODULE Kron --------------------------------
(* Kron reduction as the elimination of vertices one at a time (the star of  *)
(* an eliminated vertex becomes a mesh), effective resistances, and the      *)
(* interpolation of a signal known on some vertices.                         *)
EXTENDS GraphCore

(* M with vertex v eliminated; its row and column become zero.               *)
Eliminate(M, v) ==
  LET n == Len(M)
      r == TLCEval([j \in 1..n |-> IF j = v THEN 0 ELSE FDiv(M[v][j], M[v][v])])
  IN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
       IF i = v \/ j = v THEN 0 ELSE M[i][j] - FMul(M[i][v], r[j])])])
RECURSIVE EliminateAll(_, _)
EliminateAll(M, vs) ==
  IF vs = {} THEN M
  ELSE LET v == CHOOSE x \in vs : TRUE IN EliminateAll(Eliminate(M, v), vs \ {v})
SubMat(M, keep) == TLCEval([a \in 1..Len(keep) |-> [b \in 1..Len(keep) |-> M[keep[a]][keep[b]]]])
Schur(M, keep) == SubMat(EliminateAll(M, (1..Len(M)) \ ToSet(keep)), keep)
WeightsOf(L) == TLCEval([i \in 1..Len(L) |-> [j \in 1..Len(L) |-> IF i = j THEN 0 ELSE -L[i][j]]])
Reduced(W, keep) == WeightsOf(Schur(CombLap(W), keep))
Regularized(W, eps) == LET L == CombLap(W) IN TLCEval([i \in 1..Len(L) |-> [L[i] EXCEPT ![i] = @ + eps]])

(* The conductance left between two vertices when all others are eliminated. *)
Conductance(L, i, j) == -EliminateAll(L, (1..Len(L)) \ {i, j})[i][j]
Resistance(L, i, j) == IF i = j THEN 0 ELSE FDiv(S, Conductance(L, i, j))
Resistances(L) ==
  LET n == Len(L)
      half == TLCEval([i \in 1..n |-> TLCEval([j \in 1..i |-> Resistance(L, i, j)])])
  IN TLCEval([i \in 1..n |-> [j \in 1..n |-> IF j <= i THEN half[i][j] ELSE half[j][i]]])

(* F extends the values f given at keep: equal there, and elsewhere at rest  *)
(* under the regularized Laplacian.                                          *)
Extends(W, eps, keep, f, F, tol) ==
  LET L == Regularized(W, eps)
  IN /\ \A a \in 1..Len(keep) : Close(F[keep[a]], f[a], tol)
     /\ \A i \in (1..Len(W)) \ ToSet(keep) : Close(Dot(L[i], F), 0, tol + MaxAbsSeq(L[i]) \div 20000)
(* A polynomial filter a + b x + c x^2.                                      *)
Poly(L, c, x) ==
  LET y == MatVec(L, x)  z == MatVec(L, y)
  IN TLCEval([i \in 1..Len(x) |-> FMul(c[1], x[i]) + FMul(c[2], y[i]) + FMul(c[3], z[i])])
=============================================================================
