------------------------------ MODULE TraceC20 ------------------------------
(* Numerical utilities.                                                      *)
EXTENDS Utils, TraceBase

IsSquare(a, n) == a.s = <<n, n>> /\ AllWF(a)
SymFail(r) ==
  LET W == M2(r.W)  o == r.out
      nm == IF \E i, j \in 1..Len(W) : W[i][j] < 0 THEN 2 ELSE 5
  IN IF Len(o.dense) # nm \/ Len(o.sparse) # nm THEN {"every method"} ELSE UNION {LET m == METHODS[k]  E == Symmetrized(W, m)
            IN Clause("symmetrize by " \o m, IsMat(o.dense[k], E, 2))
               \cup Clause("sparse matrix symmetrized by " \o m, IsMat(o.sparse[k], E, 2) /\ o.stays[k] = "T") : k \in 1..nm}
RowsOf(a) == IF Len(a.s) = 1 THEN <<a.v>> ELSE M2(a)
DistFail(r) ==
  LET X == RowsOf(r.x)  Y == RowsOf(r.y)  nx == Len(X[1])  ny == Len(Y[1])  o == r.out
  IN IF o.d.s # <<nx, ny>> \/ ~AllWF(o.d) THEN {"shape of the distances"}
     ELSE LET D == M2(o.d)
          IN Clause("Euclidean distances between columns",
               \A a \in 1..nx, b \in 1..ny :
                 LET q == SqDist(X, Y, a, b) IN D[a][b] >= 0 /\ Close(FSq(D[a][b]), q, 20 + D[a][b] \div 100000 + q \div 100000))
RescaleFail(r) ==
  LET X == M2(r.x)  o == r.out
  IN IF o.r.s # r.x.s \/ ~AllWF(o.r) THEN {"shape of the rescaled data"}
     ELSE LET R == M2(o.r)  C == Centered(X)  c == Largest(C)
          IN Clause("rows centered", \A k \in 1..Len(R) : Close(Mean(R[k]), 0, 4))
             \cup Clause("largest value of one", Close(Largest(R), S, 2))
             \cup Clause("rescaled by a common factor",
                    \A k \in 1..Len(R) : \A a \in 1..Len(R[k]) : Close(FMul(R[k][a], c), C[k][a], 10 + c \div 400000))
ScalesFail(r) ==
  LET o == r.out
  IN Clause("geometric scales", o.s.s = <<r.n>> /\ AllWF(o.s)
       /\ Geometric(o.s.v, FDiv(r.t2, r.lmin), FDiv(r.t1, r.lmax)))
HandlerFail(r) ==
  LET C == Calls(r.nf, r.asked)  o == r.out
  IN Clause("one call per filter, in order, or the one asked for", o.calls = C)
     \cup Clause("arguments passed on", o.args = "T")
     \cup Clause("results in order", IF Len(C) = 1 /\ (r.asked # -1 \/ r.nf <= 1) THEN o.result = <<-1, C[1]>> ELSE o.result = C)
     \cup Clause("name and documentation kept", o.doc = "T")

FailC20(r) ==
  IF r.kind = "refuse" THEN Clause(r.why, r.exc = "ValueError")
  ELSE IF r.exc # "" THEN {r.kind \o " raised " \o r.exc}
  ELSE CASE r.kind = "symmetrize" -> SymFail(r)
         [] r.kind = "distances" -> DistFail(r)
         [] r.kind = "rescale" -> RescaleFail(r)
         [] r.kind = "scales" -> ScalesFail(r)
         [] r.kind = "handler" -> HandlerFail(r)
         [] OTHER -> {"unknown record"}
=============================================================================
