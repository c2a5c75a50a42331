------------------------------ MODULE TraceC05 ------------------------------
(* Fourier basis and transform.                                              *)
EXTENDS Spectral, TraceBase

RowsOf(a) == \* a recorded array of signals as a list of rows, extra dims flattened
  IF Len(a.s) = 1 THEN [i \in 1..a.s[1] |-> <<a.v[i]>>]
  ELSE LET m == Len(a.v) \div a.s[1]
       IN TLCEval([i \in 1..a.s[1] |-> SubSeq(a.v, (i - 1) * m + 1, i * m)])

(* --------- requests of bases of various sizes: the size only grows -------- *)
LookFail(r, L, o, size) ==
  LET n == Len(L)  k == size
  IN IF ~(o.e.s = <<k>> /\ o.U.s = <<n, k>> /\ Bounded(o.e, 1900 * S) /\ Bounded(o.U, 2 * S))
     THEN {"basis of the requested size"}
     ELSE LET U == M2(o.U)
          IN Clause("eigenvectors and eigenvalues of the Laplacian", EigenPairs(L, o.e.v, U, r.tol))
             \cup Clause("orthonormal", Orthonormal(U, 40))
             \cup Clause("ascending order", Ascending(o.e.v, 0))
             \cup Clause("first eigenvalue is zero", o.e.v[1] = 0)
             \cup Clause("smallest eigenvalues",
                    \A i \in 1..k : Close(o.e.v[i], r.ref.e.v[i], r.tol))
             \cup Clause("coherence is the largest absolute entry",
                    (k = n) => Eq(o.coherence, MaxAbsSeq(o.U.v), 2))

RECURSIVE Sizes(_, _, _)
Sizes(reqs, n, cur) ==      \* size of the basis after each request
  IF reqs = <<>> THEN <<>>
  ELSE LET k == IF Head(reqs) = 0 THEN n ELSE Head(reqs)
           s == IF k > cur THEN k ELSE cur
       IN <<s>> \o Sizes(Tail(reqs), n, s)

BasisFail(r, L) ==
  LET sz == Sizes(r.reqs, Len(L), 0)
  IN UNION {LookFail(r, L, r.out.looks[k], sz[k]) : k \in DOMAIN r.out.looks}
     \cup Clause("asking for as many or fewer keeps the basis",
            \A k \in 2..Len(sz) : sz[k] = sz[k - 1] =>
               r.out.looks[k].U = r.out.looks[k - 1].U /\ r.out.looks[k].e = r.out.looks[k - 1].e)

(* ------------------------------- transform ------------------------------- *)
TransformFail(r, L) ==
  LET n == Len(L)  o == r.out
  IN IF ~(o.U.s = <<n, n>> /\ Bounded(o.U, 2 * S)) THEN {"full basis"}
     ELSE LET U == M2(o.U)  X == RowsOf(r.x)  Y == MatMul(Transpose(U), X)
              E == MatMul(U, X)  m == NCols(X)
          IN Clause("dimensions are kept", o.y.s = r.x.s /\ o.z.s = r.x.s /\ o.w.s = r.x.s)
             \cup Clause("transform is the inner products with the basis",
                    o.y.s = r.x.s => EqMat(RowsOf(o.y), Y, 60))
             \cup Clause("inverse transform is the synthesis", o.w.s = r.x.s => EqMat(RowsOf(o.w), E, 60))
             \cup Clause("inverse transform undoes the transform",
                    o.z.s = r.x.s => EqMat(RowsOf(o.z), X, 5))
             \cup Clause("energy is preserved",
                    (o.y.s = r.x.s /\ AllWF(o.y)) =>
                      LET Yr == RowsOf(o.y)
                      IN \A j \in 1..m : Close(Dot(Col(Yr, j), Col(Yr, j)), Dot(Col(X, j), Col(X, j)), 200 + 20 * n))
             \cup Clause("basis of the transform", Orthonormal(U, 40) /\ EigenPairs(L, r.ref.e.v, U, r.tol))

FailC05(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE LET L == Lap(M2(r.W), r.lt)
       IN IF ~Certified(L, r.ref) THEN {"certificate"}
          ELSE IF r.kind = "basis" THEN BasisFail(r, L)
          ELSE IF r.kind = "transform" THEN TransformFail(r, L)
          ELSE {"unknown record"}
=============================================================================
