------------------------------ MODULE Filtering ------------------------------
(* What filtering does to a signal tensor: (vertices, signals, features).    *)
(* One feature in: analysis, one feature out per filter. One feature per     *)
(* filter in: synthesis, one feature out. Shapes are sequences of sizes.     *)
EXTENDS Kernels, Spectral

(* The tensor shape which an input stands for; <<>> if it is refused.        *)
Tensor(sh, nf) ==
  LET d == Len(sh)  last == sh[d]
  IN IF d = 1 THEN <<sh[1], 1, 1>>
     ELSE IF d = 2 THEN IF last \in {1, nf} THEN <<sh[1], 1, last>> ELSE <<sh[1], last, 1>>
     ELSE IF d = 3 THEN IF last \in {1, nf} THEN sh ELSE <<>>
     ELSE <<>>
FeaturesOut(t, nf) == IF t[3] = 1 THEN nf ELSE 1
Squeeze(sh) == SelectSeq(sh, LAMBDA k : k # 1)
ShapeOut(sh, nf) == LET t == Tensor(sh, nf) IN Squeeze(<<t[1], t[2], FeaturesOut(t, nf)>>)

(* Filtering the flat entries v of a tensor t. F: one operator matrix per    *)
(* filter. The result is flat.                                               *)
SignalOf(v, t, j, k) == [i \in 1..t[1] |-> v[((i - 1) * t[2] + j - 1) * t[3] + k]]
Filtered(F, v, t) ==
  LET nf == Len(F)  n == t[1]  m == t[2]  fo == FeaturesOut(t, nf)
      one(j, k) == IF t[3] = 1 THEN MatVec(F[k], SignalOf(v, t, j, 1))
                   ELSE FoldLeftDomain(LAMBDA acc, f : Add(acc, MatVec(F[f], SignalOf(v, t, j, f))),
                                       Zeros(n), F)
      cols == TLCEval([j \in 1..m |-> [k \in 1..fo |-> one(j, k)]])
  IN [q \in 1..(n * m * fo) |->
        cols[(((q - 1) \div fo) % m) + 1][((q - 1) % fo) + 1][((q - 1) \div (m * fo)) + 1]]

(* The operators of a bank of kernels on a certified spectrum.               *)
Operators(ks, ref, lm) ==
  LET U == M2(ref.U)
  IN TLCEval([f \in 1..Len(ks) |->
       FunMat(U, [l \in 1..Len(ref.e.v) |-> K(ks[f], Max2(0, ref.e.v[l]), lm)])])
(* The frame: row f * N + i is the atom of filter f at vertex i.             *)
Frame(F) == LET n == Len(F[1]) IN [q \in 1..(Len(F) * n) |-> F[((q - 1) \div n) + 1][((q - 1) % n) + 1]]
=============================================================================
