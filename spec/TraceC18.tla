------------------------------ MODULE TraceC18 ------------------------------
(* Semi-supervised learning.                                                 *)
EXTENDS Learning, TraceBase

RecS(a, n) == a.s[1] = n /\ Len(a.s) \in {1, 2} /\ AllWF(a)
Columns(a) == IF Len(a.s) = 1 THEN <<a.v>> ELSE [c \in 1..a.s[2] |-> Col(M2(a), c)]
Mask(r) == {i \in 1..Len(r.mask.v) : r.mask.v[i] = 1}
(* The conjugate gradient stops when the residual is 1e-5 of the right side. *)
(* Rounding the solution, and the Laplacian if normalized, counts too.       *)
TolOf(L, M, y, tau, x) ==
  LET rows == MaxAbsSeq([i \in 1..Len(L) |-> SumSeq([j \in 1..Len(L) |-> Abs(L[i][j])])])
      size == MaxAbsSeq([i \in 1..Len(L) |-> SumF(LAMBDA j : IF L[i][j] # 0 THEN Abs(x[j]) ELSE 0, Len(x))])
      noise == rows \div 800000 + size \div 250000
  IN 20 + noise + (IF tau > 0 THEN FMul(tau, noise) + SumF(LAMBDA i : IF i \in M THEN Abs(y[i]) ELSE 0, Len(y)) \div 80000 ELSE 0)
(* The spec never looks at the values given for unmeasured vertices.         *)
Solves(L, M, y, tau, x) == Recovers(L, M, y, tau, x, TolOf(L, M, y, tau, x))

RegressionFail(r) ==
  LET W == M2(r.W)  n == Len(W)  M == Mask(r)  o == r.out
  IN IF o.x.s # r.y.s \/ ~RecS(o.x, n) THEN {"shape of the solution"}
     ELSE LET L == Lap(W, r.lt)  X == Columns(o.x)  Y == Columns(r.y)
          IN Clause(IF r.tau > 0 THEN "the minimizer of misfit and energy" ELSE "measurements kept, harmonic elsewhere",
               \A c \in DOMAIN X : Solves(L, M, Y[c], r.tau, X[c]))
ClassFail(r) ==
  LET W == M2(r.W)  n == Len(W)  M == Mask(r)  o == r.out  k == NClasses(M, r.y.v)
  IN IF o.x.s # <<n, k>> \/ ~RecS(o.x, n) THEN {"one value per vertex and class"}
     ELSE LET L == Lap(W, r.lt)  X == Columns(o.x)
          IN Clause("regression of the one-hot encoding",
               \A c \in 1..k : Solves(L, M, OneHot(M, r.y.v, c - 1), r.tau, X[c]))
SimplexFail(r) ==
  LET W == M2(r.W)  n == Len(W)  M == Mask(r)  o == r.out  k == NClasses(M, r.y.v)
  IN IF o.x.s # <<n, k>> \/ ~RecS(o.x, n) THEN {"one value per vertex and class"}
     ELSE LET L == Lap(W, r.lt)  X == Columns(o.x)  Y == [c \in 1..k |-> OneHot(M, r.y.v, c - 1)]
          IN Clause("rows in the simplex", OnSimplex(X, 3 + k))
             \cup Clause("the minimizer in the simplex", r.sharp = "T" => Gap(L, M, Y, r.tau, X) <= 500)

FailC18(r) ==
  IF r.exc # "" THEN {r.kind \o " raised " \o r.exc}
  ELSE CASE r.kind = "regression" -> RegressionFail(r)
         [] r.kind = "class" -> ClassFail(r)
         [] r.kind = "simplex" -> SimplexFail(r)
         [] OTHER -> {"unknown record"}
=============================================================================
