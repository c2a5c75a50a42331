------------------------------ MODULE TraceC25 ------------------------------
(* Chebyshev, Jackson and Lanczos approximations.                            *)
EXTENDS Chebyshev, TraceBase

CoeffFail(r) ==
  LET nf == Len(r.kernels)  q == IF r.N = 0 THEN r.m + 1 ELSE r.N
      want(f) == Coeffs(r.kernels[f], r.lmax, r.m, q)
      fs == IF r.i >= 0 THEN <<r.i + 1>> ELSE [f \in 1..nf |-> f]
  IN Clause("one list of coefficients per filter, in order",
        Len(r.out.ys) = Len(fs) /\ (r.out.single = "T") = (Len(fs) = 1))
     \cup Clause("coefficients of the expansion of the kernel",
        Len(r.out.ys) = Len(fs) =>
          \A j \in 1..Len(fs) : IsVec(r.out.ys[j], want(fs[j]), r.tol))
     \cup Clause("the expansion reproduces the kernel",
        Len(r.out.ys) = Len(fs) /\ r.exact =>
          \A j \in 1..Len(fs) :
            Bounded(r.out.ys[j], 50 * S) /\ r.out.ys[j].s = <<r.m + 1>> =>
              \A x \in {0, r.lmax \div 3, r.lmax \div 2, (r.lmax \div 7) * 6} :
                 Close(Expansion(r.out.ys[j].v, x, r.lmax), K(r.kernels[fs[j]], x, r.lmax), 20 * r.tol))

(* Signals: columns of s, or s itself; results stacked filter by filter.     *)
Stacked(F, s) ==
  LET n == Len(F[1])  one == Len(s.s) = 1
      m == IF one THEN 1 ELSE s.s[2]
      cols == TLCEval([f \in 1..Len(F) |-> [j \in 1..m |->
                MatVec(F[f], [i \in 1..n |-> s.v[(i - 1) * m + j]])]])
  IN [s |-> IF one THEN <<Len(F) * n>> ELSE <<Len(F) * n, m>>,
      v |-> [q \in 1..(Len(F) * n * m) |->
               LET i == ((q - 1) \div m) % n  f == (q - 1) \div (n * m)
               IN cols[f + 1][((q - 1) % m) + 1][i + 1]]]
IsStacked(y, F, s, tol) == LET w == Stacked(F, s) IN y.s = w.s /\ EqVec(y.v, w.v, tol)

OpFail(r, ref) ==
  LET U == M2(ref.U)  e == ref.e.v  nc == Len(r.c)
      F == TLCEval([f \in 1..nc |-> FunMat(U, [l \in 1..Len(e) |-> Expansion(r.c[f], e[l], r.lmax)])])
  IN Clause("the operator evaluates the expansion at the Laplacian", IsStacked(r.out.y, F, r.s, r.tol))
RectFail(r, ref) ==
  LET U == M2(ref.U)  e == ref.e.v
      c == BandCoeffs(FDiv(2 * r.a, r.lmax) - S, FDiv(2 * r.b, r.lmax) - S, r.order)
      F == <<FunMat(U, [l \in 1..Len(e) |-> Expansion(c, e[l], r.lmax)])>>
  IN Clause("expansion of the indicator of the band", IsStacked(r.out.y, F, r.s, r.tol))
JacksonFail(r) ==
  IF r.a < r.lo \/ r.b > r.hi \/ r.lo > r.hi THEN Clause("bands outside the spectrum are refused", r.out.refused = "ValueError")
  ELSE IF r.out.refused # "" THEN {"raised " \o r.out.refused}
  ELSE LET h == (r.hi - r.lo) \div 2  mid == (r.hi + r.lo) \div 2
           c == TLCEval(BandCoeffs(FDiv(r.a - mid, h), FDiv(r.b - mid, h), r.m))
       IN Clause("expansion of the indicator of the band", IsVec(r.out.ch, c, r.tol))
          \cup Clause("damping of the coefficients",
                 IsVec(r.out.jch, [k \in 1..(r.m + 1) |-> FMul(c[k], Jackson(k - 1, r.m))], r.tol))
          \cup Clause("the damped expansion stays between zero and one",
                 Bounded(r.out.jch, 3 * S) =>
                   \A x \in {0, h \div 3, h, (h \div 9) * 17} :
                     LET v == Expansion(r.out.jch.v, x, 2 * h) IN v >= -1000 /\ v <= S + 1000)
LanczosFail(r, ref) ==
  Clause("Lanczos filtering is exact once its order reaches the number of frequencies",
         IsStacked(r.out.y, Operators(r.kernels, ref, r.lmax), r.s, r.tol))

FailC25(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE IF r.kind = "coefficients" THEN CoeffFail(r)
  ELSE IF r.kind = "jackson" THEN JacksonFail(r)
  ELSE IF r.kind = "short" THEN Clause("a single coefficient is refused", r.out.refused = "TypeError")
  ELSE LET L == Lap(M2(r.W), r.lt)
       IN IF ~Certified(L, r.ref) THEN {"certificate"}
          ELSE IF r.kind = "operator" THEN OpFail(r, r.ref)
          ELSE IF r.kind = "rectangle" THEN RectFail(r, r.ref)
          ELSE IF r.kind = "lanczos" THEN LanczosFail(r, r.ref)
          ELSE {"unknown record"}
=============================================================================
