------------------------------ MODULE TraceC17 ------------------------------
(* Resistance distances and sparsification.                                  *)
EXTENDS Sparsify, TraceBase

RecM(a, n) == a.s = <<n, n>> /\ AllWF(a)
TolR(x) == 20 + x \div 20000
(* Resistances by elimination for small graphs, and otherwise from a         *)
(* pseudo-inverse, which is checked first.                                   *)
Small(W) == Len(W) <= 5
Known(W, P) == Small(W) \/ PseudoInverse(CombLap(W), M2(P), 40 + (2 * MaxAbsSeq(WDegree(W))) \div S)
Exact(W, P) == IF Small(W) THEN Resistances(CombLap(W)) ELSE FromPseudo(M2(P))

ResistanceFail(r) ==
  LET W == M2(r.W)  n == Len(W)  o == r.out
  IN IF ~RecM(o.R, n) THEN {"shape of the resistances"}
     ELSE LET X == Exact(W, r.P)  R == M2(o.R)
          IN Clause("certificate", Known(W, r.P))
             \cup Clause("resistance distances", \A i, j \in 1..n : Close(R[i][j], X[i][j], TolR(X[i][j])))

(* In a tree, resistances add up along the path.                             *)
RECURSIVE Series(_, _, _, _)
Series(W, p, i, j) == IF i = j THEN 0 ELSE IF i < j THEN Series(W, p, j, i)
                      ELSE FDiv(S, W[i][p[i]]) + Series(W, p, p[i], j)
TreeFail(r) ==
  LET W == M2(r.W)  n == Len(W)  p == r.parent  o == r.out
  IN IF ~\A i, j \in 1..n : (W[i][j] # 0) = (i # j /\ (p[i] = j \/ p[j] = i)) /\ W[i][j] = W[j][i] THEN {"certificate"}
     ELSE IF ~RecM(o.R, n) THEN {"shape of the resistances"}
     ELSE LET R == M2(o.R)
          IN Clause("resistances add up along the edges of a tree",
               \A i, j \in 1..n : LET x == Series(W, p, i, j) IN Close(R[i][j], x, 4 + n + x \div 100000))

(* out.W: weights of the result; rounds: the most attempts at a precision.   *)
Whole(x) == Abs(x - ((x + HALF) \div S) * S) <= 20000 + x \div 5000
RoundsOf(r) == {k \in 0..(r.rounds - 1) : TRUE}
QOf(n, eps) == LET q == NDraws(n, eps) IN {Max2(1, (q + HALF - 1000) \div S), Max2(1, (q + HALF + 1000) \div S)}
SampleFail(r, W, X, V, total) ==
  LET n == Len(W)
      E == EdgesOf(W)
      Fits(q) ==
        q > 0 /\ (\A e \in E : Whole(Draws(V[e[1]][e[2]], X, q, total, e)))
        /\ FoldSet(LAMBDA e, acc : acc + ((Draws(V[e[1]][e[2]], X, q, total, e) + HALF) \div S), 0, E) = q
      Qs(k) == QOf(n, Precision(n, r.eps, k))
  IN Clause("multiples of the unit shares",
       IF Connected(V) THEN \E k \in RoundsOf(r) : \E q \in Qs(k) : Fits(q)
       ELSE \E q \in Qs(r.rounds - 1) : Fits(q))
SparsifyFail(r) ==
  LET W == M2(r.W)  n == Len(W)  o == r.out
  IN IF ~RecM(o.W, n) THEN {"the vertices are kept"}
     ELSE LET X == Exact(W, r.P)  V == M2(o.W)  total == (n - 1) * S
              wf == Symmetric(V) /\ (\A i, j \in 1..n : V[i][j] >= 0 /\ V[i][j] <= 500 * S)
          IN Clause("certificate", Known(W, r.P))
             \cup Clause("non-negative symmetric weights", wf)
             \cup Clause("a subgraph", \A i, j \in 1..n : V[i][j] # 0 => i # j /\ W[i][j] # 0)
             \cup Clause("an edge of the result is one of the matrix", o.nnz = Cardinality({p \in (1..n) \X (1..n) : V[p[1]][p[2]] # 0}))
             \cup (IF wf THEN SampleFail(r, W, X, V, total) ELSE {})
             \cup Clause("a graph for a graph, a Laplacian for a Laplacian", o.type = r.form)
             \cup Clause("the Laplacian of the result", IsMat(o.L, CombLap(V), 4 * n))
             \cup Clause("reproducible given a seed", o.again = "T")

(* Draws of each edge over many independent runs of one round.               *)
PooledFail(r) ==
  LET W == M2(r.W)  n == Len(W)  X == Exact(W, r.P)  V == M2(r.out.mean)
      E == EdgesOf(W)  q == CHOOSE x \in QOf(n, r.eps) : TRUE
      total == (n - 1) * S
  IN Clause("certificate", Known(W, r.P))
     \cup Clause("each edge is drawn in proportion to the resistance it carries",
          \A e \in E : LET p == FDiv(Carried(W, X, e), total)      \* probability
                           c == Draws(V[e[1]][e[2]], X, q, total, e) \* mean number of draws
                       IN Abs(c - p * q) <= 6 * FSqrt(FDiv(p * q, r.runs * S)) + (4 * S) \div r.runs)

FailC17(r) ==
  IF r.kind = "refuse" THEN Clause(r.why, r.exc = "ValueError")
  ELSE IF r.exc # "" THEN {r.kind \o " raised " \o r.exc}
  ELSE CASE r.kind = "resistance" -> ResistanceFail(r)
         [] r.kind = "sparsify" -> SparsifyFail(r)
         [] r.kind = "tree" -> TreeFail(r)
         [] r.kind = "pooled" -> PooledFail(r)
         [] OTHER -> {"unknown record"}
=============================================================================
