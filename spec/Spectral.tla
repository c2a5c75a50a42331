------------------------------ MODULE Spectral ------------------------------
(* Eigendecompositions, decided by certificate: a matrix of candidate        *)
(* eigenvectors (as columns) and eigenvalues is checked against the Laplacian *)
(* of the specification. A reference decomposition provided with a trace is  *)
(* never trusted, only certified.                                            *)
EXTENDS GraphCore

Ascending(e, tol) == \A k \in 1..(Len(e) - 1) : e[k] <= e[k + 1] + tol
Orthonormal(U, tol) ==      \* U: list of rows
  LET Ut == Transpose(U)
  IN \A i \in 1..Len(Ut) : \A j \in i..Len(Ut) :
       Close(Dot(Ut[i], Ut[j]), IF i = j THEN S ELSE 0, tol)
EigenPairs(L, e, U, tol) ==
  LET Ut == Transpose(U)
  IN \A k \in 1..Len(e) :
       LET Lu == MatVec(L, Ut[k])
       IN \A i \in 1..Len(L) : Close(Lu[i], FMul(e[k], Ut[k][i]), tol)
EigenOK(L, e, U, tol) ==
  /\ Len(U) = Len(L) /\ NCols(U) = Len(e)
  /\ Ascending(e, 2) /\ Orthonormal(U, tol) /\ EigenPairs(L, e, U, tol)

(* A certified full decomposition [e |-> array, U |-> array] of L.           *)
EigTol(L) == 40 + MaxSeq([i \in 1..Len(L) |-> MaxAbsSeq(L[i])]) \div 100000
Certified(L, ref) ==
  Assert(/\ ref.e.s = <<Len(L)>> /\ ref.U.s = <<Len(L), Len(L)>>
         /\ EigenOK(L, ref.e.v, M2(ref.U), EigTol(L)), "CERTIFICATE")
EMax(ref) == ref.e.v[Len(ref.e.v)]

(* The function of L with values f on the certified spectrum, applied to s.  *)
ApplyF(U, f, s) ==
  LET c == MatVec(Transpose(U), s) IN MatVec(U, [k \in 1..Len(f) |-> FMul(f[k], c[k])])
FunMat(U, f) ==
  TLCEval([i \in 1..Len(U) |-> [j \in 1..Len(U) |->
     SumF(LAMBDA k : FMul(FMul(U[i][k], f[k]), U[j][k]), Len(f))]])

(* Upper bounds on the largest eigenvalue of the combinatorial Laplacian.    *)
BoundSize(W) == Len(W) * MaxSeq([i \in 1..Len(W) |-> MaxSeq(W[i])])
BoundDegree(W) == 2 * MaxSeq(WDegree(W))
BoundEdge(W) ==
  LET d == WDegree(W)  X == Sym(W)
  IN MaxSeq(SetToSeq({d[p[1]] + d[p[2]] : p \in {q \in (1..Len(W)) \X (1..Len(W)) : X[q[1]][q[2]] # 0}}))
BoundMean(W) ==
  LET d == WDegree(W)  X == Sym(W)
  IN MaxSeq([i \in 1..Len(W) |-> IF d[i] = 0 THEN 0 ELSE d[i] + FDiv(Dot(X[i], d), d[i])])
HasIsolated(W) == LET d == WDegree(W) IN \E i \in 1..Len(W) : d[i] = 0
(* With isolated vertices the mean over no neighbors is not defined: the     *)
(* fourth bound may be left out.                                             *)
TightBounds(W) ==
  LET m == Min2(Min2(BoundSize(W), BoundDegree(W)), BoundEdge(W))
  IN {Min2(m, BoundMean(W))} \cup (IF HasIsolated(W) THEN {m} ELSE {})
Bounds(W, lt) == IF lt = "normalized" THEN {TWO} ELSE TightBounds(W)
=============================================================================
