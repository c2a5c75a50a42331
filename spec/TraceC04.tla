------------------------------ MODULE TraceC04 ------------------------------
(* Differential operator, gradient, divergence and Dirichlet energy.         *)
EXTENDS GraphCore, TraceBase

Tol == 60
(* The expected operator, given the recorded edge list. *)
Operator(W, o, lt) ==
  LET n == Len(W)  m == NEdges(W)  dw == WDegree(W)  dir == Directed(W)
      col(k) == LET s == o.src.v[k] + 1  t == o.tgt.v[k] + 1  w == W[s][t]
                IN [s |-> s, t |-> t,
                    a |-> EdgeRoot(w, dw[s], lt, dir), b |-> EdgeRoot(w, dw[t], lt, dir)]
      C == TLCEval([k \in 1..m |-> col(k)])
  IN TLCEval([i \in 1..n |-> [k \in 1..m |->
       IF C[k].s = C[k].t THEN 0
       ELSE IF C[k].s = i THEN -C[k].a ELSE IF C[k].t = i THEN C[k].b ELSE 0]])

(* Energy as half the weighted sum of squared differences (combinatorial),   *)
(* and as the quadratic form.                                                *)
HalfSum(W, x) ==
  LET X == Sym(W)
  IN SumF(LAMBDA i : SumF(LAMBDA j :
       IF X[i][j] = 0 \/ i = j THEN 0 ELSE FMul(X[i][j], FSq(x[i] - x[j])), Len(W)), Len(W)) \div 2

SigFail(W, o, lt, D, q) ==
  LET n == Len(W)  m == NEdges(W)
      big == 400000000
  IN IF q.x.s = <<n>>
     THEN LET g == MatVec(Transpose(D), q.x.v)
              e == Dot(g, g)
              gOK == IsVec(q.grad, g, Tol)
          IN (IF m = 0 THEN Clause("gradient", q.grad.s = <<0>>)
              ELSE Clause("gradient", gOK)
                   \cup Clause("divergence", IsVec(q.div, MatVec(D, q.y.v), 3 * Tol)))
             \cup Clause("Dirichlet energy is the squared norm of the gradient",
                    IsScalar(q.energy, IF m = 0 THEN 0 ELSE e, 400 + e \div 5000))
             \cup Clause("Dirichlet energy is the quadratic form",
                    IsScalar(q.energy, Dot(q.x.v, MatVec(Lap(W, lt), q.x.v)), 400 + e \div 5000))
             \cup (IF lt = "combinatorial"
                   THEN Clause("Dirichlet energy is half the weighted sum of squared differences",
                          IsScalar(q.energy, HalfSum(W, q.x.v), 400 + e \div 5000)) ELSE {})
     ELSE \* several signals, as columns
          LET X == M2(q.x)  c == q.x.s[2]
              G == IF m = 0 THEN <<>> ELSE MatMul(Transpose(D), X)
              E == MatMul(Transpose(X), MatMul(Lap(W, lt), X))
          IN (IF m = 0 THEN Clause("gradient", q.grad.s = <<0, c>>)
              ELSE Clause("gradient of several signals", IsMat(q.grad, G, Tol))
                   \cup Clause("divergence of several signals", IsMat(q.div, MatMul(D, M2(q.y)), 3 * Tol)))
             \cup Clause("Dirichlet energy of several signals",
                    IsMat(q.energy, E, 400 + MaxAbsSeq([i \in 1..c |-> E[i][i]]) \div 5000))

LookFail(W, o) ==
  LET n == Len(W)  m == NEdges(W)  lt == o.lt
  IN IF ~EdgeListOK(W, o.src, o.tgt, o.wgt) THEN {"edge list"}
     ELSE IF ~IsShape(o.D, <<n, m>>) THEN {"one column per edge"}
     ELSE IF m = 0 THEN UNION {SigFail(W, o, lt, <<>>, o.sigs[k]) : k \in DOMAIN o.sigs}
     ELSE LET E == Operator(W, o, lt)
          IN Clause("differential operator", IsMat(o.D, E, 30))
             \cup Clause("D D' is the Laplacian",
                    Bounded(o.D, 30000000) =>
                      EqMat(MatMul(M2(o.D), Transpose(M2(o.D))), Lap(W, lt), 300))
             \cup UNION {SigFail(W, o, lt, E, o.sigs[k]) : k \in DOMAIN o.sigs}
FailC04(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE LET W == M2(r.W) IN UNION {LookFail(W, r.out.looks[k]) : k \in DOMAIN r.out.looks}
=============================================================================
