------------------------------ MODULE TraceC03 ------------------------------
(* Laplacians, along any sequence of Laplacian types on one graph.           *)
EXTENDS GraphCore, TraceBase
LookFail(W, o) ==
  LET n == Len(W)  E == Lap(W, o.want)
  IN IF ~IsShape(o.L, <<n, n>>) \/ ~AllWF(o.L) \/ ~Bounded(o.L, 1900000000)
     THEN {"Laplacian is not a finite matrix of the right size"}
     ELSE LET L == M2(o.L)
          IN Clause("Laplacian type in force", o.lt = o.want)
             \cup Clause("Laplacian matches its definition",
                    EqMat(L, E, IF o.want = "combinatorial" THEN 20 ELSE 30))
             \cup Clause("symmetric", \A i, j \in 1..n : Close(L[i][j], L[j][i], 2))
             \cup Clause("zero row sums",
                    o.want = "combinatorial" /\ n <= 10 => \A i \in 1..n : Close(SumSeq(L[i]), 0, 2 * n))
             \cup Clause("same as on a fresh graph", IsMat(o.fresh, L, 2))
FailC03(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE LET W == M2(r.W) IN UNION {LookFail(W, r.out.looks[k]) : k \in DOMAIN r.out.looks}
=============================================================================
