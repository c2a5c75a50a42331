------------------------------ MODULE TraceC08 ------------------------------
(* Filtering, localization, frames.                                          *)
EXTENDS Filtering, TraceBase

Small(r, exp) == r.tol + (MaxAbsSeq(exp) \div 20000)
FilterFail(r, F) ==
  LET nf == Len(F)  t == Tensor(r.s.s, nf)  o == r.out
  IN IF t = <<>> THEN Clause("signals of other shapes are refused", o.refused = "ValueError")
     ELSE IF o.refused # "" THEN {"filtering raised " \o o.refused}
     ELSE LET exp == Filtered(F, r.s.v, t)
          IN Clause("shape of the filtered signals", o.y.s = ShapeOut(r.s.s, nf))
             \cup Clause("filtering applies the kernels to the Laplacian", EqVec(o.y.v, exp, Small(r, exp)))

(* Localization: the atom at a vertex, scaled by the root of the size.       *)
LocalizeFail(r, F) ==
  LET nf == Len(F)  n == Len(F[1])  root == FSqrt(n * S)
      exp == [q \in 1..(n * nf) |-> FMul(root, F[((q - 1) % nf) + 1][((q - 1) \div nf) + 1][r.vertex + 1])]
  IN Clause("localization filters a scaled impulse",
        r.out.y.s = Squeeze(<<n, nf>>) /\ EqVec(r.out.y.v, exp, 3 * Small(r, exp)))
FrameFail(r, F) ==
  Clause("frame is the matrix of the analysis", IsMat(r.out.y, Frame(F), 2 * r.tol))
  \cup Clause("frame applied to a signal is its analysis",
         LET n == Len(F[1])  s == [i \in 1..n |-> (i - 2) * S]
             y == IF Bounded(r.out.y, 100 * S) /\ r.out.y.s = <<Len(F) * n, n>> THEN M2(r.out.y) ELSE Frame(F)
             t == Filtered(F, s, <<n, 1, 1>>)
             c == MatVec(y, s)
         IN \A f \in 1..Len(F), i \in 1..n : Close(c[(f - 1) * n + i], t[(i - 1) * Len(F) + f], 20 * n * r.tol))

FailC08(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE LET L == Lap(M2(r.W), r.lt)
       IN IF ~Certified(L, r.ref) THEN {"certificate"}
          ELSE LET F == Operators(r.kernels, r.ref, r.lmax)
               IN (IF r.kind = "filter" THEN FilterFail(r, F)
                   ELSE IF r.kind = "localize" THEN LocalizeFail(r, F)
                   ELSE IF r.kind = "frame" THEN FrameFail(r, F) ELSE {"unknown record"})
                  \cup Clause("inputs and Laplacian are left as they were", r.out.kept = "T")
=============================================================================
