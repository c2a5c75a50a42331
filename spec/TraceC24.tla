------------------------------ MODULE TraceC24 ------------------------------
(* Graph features.                                                           *)
EXTENDS Filtering, TraceBase

(* Mean of the degrees of a vertex and its neighbors.                        *)
AvgDegree(W) ==
  LET d == Degree(W)
  IN [i \in 1..Len(W) |->
       LET nb == {i} \cup {j \in 1..Len(W) : W[i][j] # 0}
           q == Cardinality(nb)
           sum == FoldLeft(LAMBDA acc, j : acc + (d[j] \div 100), 0, SetToSeq(nb))    \* in hundreds of units
       IN (sum \div q) * 100 + (((sum % q) * 100) \div q)]

Norms(F) == [i \in 1..Len(F) |-> FSqrt(Dot(F[i], F[i]))]
(* The results for a bank are one per filter, in order, unless one filter is *)
(* asked for or there is only one.                                           *)
Answers(o, want(_), nf, i, close(_, _)) ==
  IF i >= 0 THEN o.single = "T" /\ close(o.ys[1], want(i + 1))
  ELSE IF nf = 1 THEN o.single = "T" /\ close(o.ys[1], want(1))
  ELSE o.single = "F" /\ Len(o.ys) = nf /\ \A f \in 1..nf : close(o.ys[f], want(f))

FailC24(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE LET W == M2(r.W)
       IN IF r.kind = "average degree"
          THEN Clause("mean of the degrees of a vertex and its neighbors",
                 LET exp == AvgDegree(W)
                 IN r.out.y.s = <<Len(W)>> /\ EqVec(r.out.y.v, exp, 3))
          ELSE LET L == Lap(W, r.lt)
               IN IF ~Certified(L, r.ref) THEN {"certificate"}
                  ELSE LET U == M2(r.ref.U)  e == r.ref.e.v  n == Len(e)
                           G(k) == FunMat(U, [l \in 1..n |-> K(k, Max2(0, e[l]), r.lmax)])
                       IN IF r.kind = "tig"
                          THEN Clause("atoms are the rows of the filter",
                                 Answers(r.out, LAMBDA f : G(r.kernels[f]), Len(r.kernels), r.i,
                                         LAMBDA y, m : IsMat(y, m, r.tol)))
                          ELSE IF r.kind = "norm tig"
                          THEN Clause("norms of the atoms",
                                 Answers(r.out, LAMBDA f : Norms(G(r.kernels[f])), Len(r.kernels), r.i,
                                         LAMBDA y, v : y.s = <<n>> /\ Bounded(y, 100 * S) /\
                                            \A k \in 1..n : y.v[k] >= -2 /\ Close(FSq(y.v[k]), FSq(v[k]), 4 * r.tol)))
                          ELSE IF r.kind = "spectrogram"
                          THEN LET m == r.M
                                   q == Max2(1, m - 1)
                                   shift(k) == (k - 1) * (r.lmax \div q) + (((k - 1) * (r.lmax % q)) \div q)
                                   atom(x) == IF r.atom.name = "default"
                                              THEN FExp(-FMul(m * S, FSq(FDiv(x, r.lmax)))) ELSE K(r.atom, x, r.lmax)
                                   f == TLCEval([k \in 1..m |-> [l \in 1..n |-> FSq(atom(Max2(0, e[l]) - shift(k)))]])
                                   exp == [i \in 1..n |-> [k \in 1..m |->
                                            SumF(LAMBDA l : FMul(f[k][l], FSq(U[i][l])), n)]]
                               IN Clause("squared norms of the shifted atoms", IsMat(r.out.y, exp, r.tol))
                                  \cup Clause("the spectrogram is kept on the graph", r.out.kept = r.out.y)
                          ELSE {"unknown record"}
=============================================================================
