------------------------------ MODULE Learning ------------------------------
(* Recovering a signal from its values on some vertices, as the minimizer of *)
(*   sum over measured i of (x_i - y_i)^2 + tau x' L x,                      *)
(* or of x' L x with x_i = y_i if tau is zero. L is any Laplacian. M is the  *)
(* set of the measured vertices.                                             *)
EXTENDS GraphCore

Energy(L, x) == Dot(x, MatVec(L, x))
Misfit(M, y, x) == SumF(LAMBDA i : IF i \in M THEN FSq(x[i] - y[i]) ELSE 0, Len(x))
Cost(L, M, y, tau, x) == Misfit(M, y, x) + FMul(tau, Energy(L, x))
(* Half the derivative of the cost. *)
Gradient(L, M, y, tau, x) ==
  LET z == MatVec(L, x)
  IN TLCEval([i \in 1..Len(x) |-> (IF i \in M THEN x[i] - y[i] ELSE 0) + FMul(tau, z[i])])
(* Both problems are convex, so that the stationary points are minimizers.   *)
Recovers(L, M, y, tau, x, tol) ==
  IF tau > 0
  THEN \A g \in Range(Gradient(L, M, y, tau, x)) : Abs(g) <= tol
  ELSE LET z == MatVec(L, x)
       IN \A i \in 1..Len(x) : IF i \in M THEN Close(x[i], y[i], 2) ELSE Abs(z[i]) <= tol
(* One vertex set to its best value, the others being given.                 *)
Relax(L, M, y, tau, x, i) ==
  LET others == Dot(L[i], x) - FMul(L[i][i], x[i])
      a == IF i \in M THEN S ELSE 0
      v == IF tau > 0 THEN FDiv((IF i \in M THEN y[i] ELSE 0) - FMul(tau, others), a + FMul(tau, L[i][i]))
           ELSE -FDiv(others, L[i][i])
  IN [x EXCEPT ![i] = v]

(* Classes: one column per class, the one-hot encoding of the labels.        *)
OneHot(M, labels, c) == TLCEval([i \in 1..Len(labels) |-> IF i \in M /\ labels[i] = c THEN S ELSE 0])
NClasses(M, labels) == 1 + FoldSet(LAMBDA i, acc : Max2(labels[i], acc), 0, M)
(* How much the cost of X, whose rows are in the simplex, may still decrease *)
(* (twice this; X and Y given by columns): a vertex would move to its best   *)
(* class.                                                                    *)
OnSimplex(X, tol) ==
  LET n == Len(X[1])
  IN \A i \in 1..n : (\A c \in DOMAIN X : X[c][i] >= 0) /\ Close(SumF(LAMBDA c : X[c][i], Len(X)), S, tol)
Gap(L, M, Y, tau, X) ==
  LET G == TLCEval([c \in DOMAIN X |-> Gradient(L, M, Y[c], tau, X[c])])
  IN SumF(LAMBDA i : LET best == MinSeq([c \in DOMAIN X |-> G[c][i]])
                     IN SumF(LAMBDA c : FMul(X[c][i], G[c][i] - best), Len(X)), Len(X[1]))
=============================================================================
