-------------------------------- MODULE Mat --------------------------------
(* Vectors and matrices of fixed-point numbers.                              *)
(*                                                                           *)
(* Recorded arrays are records [s |-> shape, v |-> entries in C order], so   *)
(* that shape errors are verdicts and not evaluation errors. Something that  *)
(* is not a numeric array is recorded with the shape <<-1>>.                 *)
EXTENDS Num, FiniteSets

IsShape(a, sh) == a.s = sh
AllWF(a) == \A i \in DOMAIN a.v : WF(a.v[i])
Bounded(a, b) == \A i \in DOMAIN a.v : a.v[i] <= b /\ a.v[i] >= -b
Scalar(a) == a.v[1]
Vec(a) == a.v
M2(a) == LET n == a.s[1]  m == a.s[2]
         IN TLCEval([i \in 1..n |-> SubSeq(a.v, (i - 1) * m + 1, i * m)])
(* For 3-D arrays: [i][j][k]. *)
M3(a) == LET n == a.s[1]  m == a.s[2]  p == a.s[3]
         IN TLCEval([i \in 1..n |-> [j \in 1..m |->
              SubSeq(a.v, ((i - 1) * m + j - 1) * p + 1, ((i - 1) * m + j) * p)]])
NRows(A) == Len(A)
NCols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])

SumF(F(_), n) == FoldLeftDomain(LAMBDA acc, i : acc + F(i), 0, [i \in 1..n |-> 0])
SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA acc, x : IF x > acc THEN x ELSE acc, s[1], s)
MinSeq(s) == FoldLeft(LAMBDA acc, x : IF x < acc THEN x ELSE acc, s[1], s)
MaxAbsSeq(s) == FoldLeft(LAMBDA acc, x : Max2(acc, Abs(x)), 0, s)

Dot(u, v) == FoldLeftDomain(LAMBDA acc, i : acc + FMul(u[i], v[i]), 0, u)
Col(A, j) == [i \in 1..Len(A) |-> A[i][j]]
Transpose(A) == TLCEval([j \in 1..NCols(A) |-> [i \in 1..Len(A) |-> A[i][j]]])
MatVec(A, x) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], x)])
MatMul(A, B) ==
  LET Bt == Transpose(B)
  IN TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(Bt) |-> Dot(A[i], Bt[j])]])
Add(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] + v[i]])
Sub(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] - v[i]])
Scale(c, u) == TLCEval([i \in 1..Len(u) |-> FMul(c, u[i])])
Ident(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN S ELSE 0]])
Zeros(n) == [i \in 1..n |-> 0]
Unit(n, k) == TLCEval([i \in 1..n |-> IF i = k THEN S ELSE 0])

EqVec(rec, exp, tol) ==
  Len(rec) = Len(exp) /\ \A i \in 1..Len(exp) : Eq(rec[i], exp[i], tol)
EqMat(rec, exp, tol) ==
  Len(rec) = Len(exp) /\ \A i \in 1..Len(exp) : EqVec(rec[i], exp[i], tol)
(* A recorded array against an expected vector or matrix, shape included.    *)
IsVec(a, exp, tol) == a.s = <<Len(exp)>> /\ EqVec(a.v, exp, tol)
IsMat(a, exp, tol) ==
  a.s = <<Len(exp), NCols(exp)>> /\ EqMat(M2(a), exp, tol)
IsScalar(a, exp, tol) == a.s = <<>> /\ Len(a.v) = 1 /\ Eq(a.v[1], exp, tol)

Symmetric(A) == \A i \in 1..Len(A), j \in 1..Len(A) : A[i][j] = A[j][i]

(* The clause of a verdict: its name if it does not hold.                    *)
Clause(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
