------------------------------ MODULE Chebyshev ------------------------------
(* Chebyshev expansions on [0, lm].                                          *)
EXTENDS Filtering

(* cos(k pi / (2 q)) for k in 0..(4 q - 1), as a sequence from k = 0.         *)
CosTable(q) == TLCEval([k \in 1..(4 * q) |-> FCos(((k - 1) * (PI2 \div 2)) \div (2 * q))])
CosAt(T, k) == T[(k % Len(T)) + 1]

(* Coefficients by quadrature at q points.                                   *)
Nodes(q, lm) == LET T == CosTable(q) IN TLCEval([j \in 1..q |-> lm \div 2 + FMul(lm \div 2, CosAt(T, 2 * j - 1))])
Coeffs(k, lm, m, q) ==
  LET T == CosTable(q)
      X == Nodes(q, lm)
      f == TLCEval([j \in 1..q |-> K(k, X[j], lm)])
  IN TLCEval([o \in 1..(m + 1) |->
       (2 * SumF(LAMBDA j : FMul(f[j], CosAt(T, (o - 1) * (2 * j - 1))), q)) \div q])

(* T_0(t), ..., T_n(t).                                                      *)
RECURSIVE ChebSeq(_, _, _)
ChebSeq(t, n, acc) ==
  IF Len(acc) > n THEN acc
  ELSE ChebSeq(t, n, Append(acc, 2 * FMul(t, acc[Len(acc)]) - acc[Len(acc) - 1]))
Cheb(t, n) == ChebSeq(t, n, <<S, t>>)
(* The expansion at x.                                                       *)
Expansion(c, x, lm) ==
  LET T == Cheb(FDiv(2 * x, lm) - S, Len(c)) IN c[1] \div 2 + SumF(LAMBDA k : FMul(c[k + 1], T[k + 1]), Len(c) - 1)

(* The indicator of a band [a, b]: coefficients up to order m, from the       *)
(* angles of its ends.                                                       *)
BandCoeffs(a, b, m) ==       \* a, b in [-1, 1]
  LET A == FAcos(a)  B == FAcos(b)
  IN [k \in 1..(m + 1) |->
       IF k = 1 THEN FDiv(2 * (A - B), PI)
       ELSE FDiv(2 * (FSin((k - 1) * A) - FSin((k - 1) * B)), (k - 1) * PI)]
Jackson(k, m) ==             \* damping of coefficient k of an expansion of order m
  LET al == PI \div (m + 2)
  IN FDiv(((m + 2 - k) * FMul(FSin(al), FCos(k * al))) \div (m + 2) + FMul(FCos(al), FSin(k * al)) \div (m + 2),
          FSin(al))
=============================================================================
