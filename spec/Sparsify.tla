------------------------------ MODULE Sparsify ------------------------------
(* Sparsification by sampling edges in proportion to the share of the total  *)
(* resistance they carry.                                                    *)
EXTENDS Kron

EdgesOf(W) == {p \in (1..Len(W)) \X (1..Len(W)) : p[1] < p[2] /\ W[p[1]][p[2]] # 0}
Carried(W, R, e) == FMul(W[e[1]][e[2]], R[e[1]][e[2]])     \* resistance share of an edge
Total(W, R) == FoldSet(LAMBDA e, acc : acc + Carried(W, R, e), 0, EdgesOf(W))
(* The weight that an edge gets for each of the q draws that picks it.       *)
UnitShare(W, R, q, e) == FDiv(Total(W, R), R[e[1]][e[2]]) \div q
(* The number of draws (as a real) that a weight stands for.                 *)
Draws(w, R, q, total, e) == FDiv(FMul(w, R[e[1]][e[2]]), total) * q
(* The number of draws for a given precision.                                *)
RootN(n) == FSqrt(n * S)
NDraws(n, eps) == FDiv(FDiv(FMul(160000 * n, FLog(n * S)), eps), eps)
(* The precision after k failures to get a connected graph.                  *)
RECURSIVE Precision(_, _, _)
Precision(n, eps, k) == IF k = 0 THEN eps ELSE (Precision(n, eps, k - 1) + FDiv(S, RootN(n))) \div 2

(* R from P, a pseudo-inverse of the Laplacian L: L P = I - J / n.           *)
PseudoInverse(L, P, tol) ==
  LET X == MatMul(L, P)  n == Len(L)
  IN \A i, j \in 1..n : Close(X[i][j], (IF i = j THEN S ELSE 0) - (S \div n), tol)
FromPseudo(P) == TLCEval([i \in 1..Len(P) |-> [j \in 1..Len(P) |-> P[i][i] + P[j][j] - P[i][j] - P[j][i]]])
=============================================================================
