------------------------------- MODULE Utils -------------------------------
(* Numerical utilities, as their documentation defines them.                 *)
EXTENDS Mat

MatF(F(_, _), n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> F(i, j)]])
Average(W) == MatF(LAMBDA i, j : (W[i][j] + W[j][i]) \div 2, Len(W))
Maximum(W) == MatF(LAMBDA i, j : Max2(W[i][j], W[j][i]), Len(W))
(* A missing direction is copied from the other one; then both are averaged. *)
Filled(W) == MatF(LAMBDA i, j : IF W[i][j] = 0 THEN W[j][i] ELSE W[i][j], Len(W))
Fill(W) == Average(Filled(W))
Tril(W) == MatF(LAMBDA i, j : IF i >= j THEN W[i][j] ELSE W[j][i], Len(W))
Triu(W) == MatF(LAMBDA i, j : IF i <= j THEN W[i][j] ELSE W[j][i], Len(W))
METHODS == <<"average", "maximum", "fill", "tril", "triu">>
Symmetrized(W, m) ==
  CASE m = "average" -> Average(W) [] m = "maximum" -> Maximum(W) [] m = "fill" -> Fill(W)
    [] m = "tril" -> Tril(W) [] m = "triu" -> Triu(W)

SqDist(X, Y, a, b) == SumF(LAMBDA k : FSq(X[k][a] - Y[k][b]), Len(X))
(* Each row centered, then all scaled such that the largest value is one.    *)
Mean(v) == SumSeq(v) \div Len(v)
Centered(X) == TLCEval([k \in 1..Len(X) |-> LET m == Mean(X[k]) IN [a \in 1..Len(X[k]) |-> X[k][a] - m]])
Largest(X) == MaxSeq([k \in 1..Len(X) |-> MaxSeq(X[k])])
Geometric(s, first, last) ==
  LET n == Len(s)
  IN /\ n > 0 => Close(s[1], first, 20 + first \div 100000)
     /\ n > 1 => Close(s[n], last, 20 + last \div 100000)
     /\ \A k \in 2..(n - 1) : \* s[k] / s[k-1] = s[k+1] / s[k]
          s[k] > 0 /\ LET u == FSq(s[k])  v == FMul(s[k - 1], s[k + 1])
                      IN Close(u, v, 4 + s[k - 1] \div 400000 + s[k] \div 200000 + u \div 20000)
(* What a handled function is called with, and what comes back: one call per *)
(* filter in order, or the call asked for.                                   *)
Calls(nf, asked) == IF asked # -1 THEN <<asked>> ELSE IF nf <= 1 THEN <<-1>> ELSE [k \in 1..nf |-> k - 1]
=============================================================================
