------------------------------ MODULE TraceC10 ------------------------------
(* Filter designs: number of filters, responses, tightness.                  *)
EXTENDS Designs, Spectral, TraceBase

ColSq(y, j, nf, m) == FoldLeftDomain(LAMBDA acc, i : acc + FSq(y[(i - 1) * m + j]), 0, [i \in 1..nf |-> 0])

(* Square roots of what may vanish are compared by their squares.             *)
Roots == {"held high", "simoncelli high", "papadakis low", "papadakis high", "regular high",
          "tight low", "tight band"}
Match(k, x, lm, y, tol) ==
  LET v == K(k, x, lm)
  IN IF k.name \in Roots THEN WF(y) /\ y >= -2 /\ y < TWO /\ Close(FSq(y), FSq(v), Max2(tol \div 3, 60))
     ELSE Eq(y, v, tol)

DesignFail(r) ==
  LET b == TLCEval(Bank(r.design, r.lmax, IF r.design.design = "heat" /\ r.design.normalize THEN r.e ELSE <<>>))
      m == Len(r.x.v)  nf == Len(b)  o == r.out
  IN IF ~(o.nf = nf /\ o.len = nf /\ o.shape = <<nf, 1>>) THEN {"number of filters"}
     ELSE IF o.y.s # <<nf>> \o r.x.s THEN {"shape of the responses"}
     ELSE Clause("responses follow the documented kernels",
            \A i \in 1..nf : \A j \in 1..m :
               Match(b[i], r.x.v[j], r.lmax, o.y.v[(i - 1) * m + j], r.tol))
          \cup (LET t == TightBound(r.design)
                IN IF t = 0 THEN {}
                   ELSE Clause("tight frame: constant sum of squared responses",
                          Bounded(o.y, 30 * S) /\
                          \A j \in 1..m : Close(ColSq(o.y.v, j, nf, m), t, 60)))

(* Gabor: the kernel shifted to each eigenvalue.                             *)
GaborFail(r) ==
  LET o == r.out  n == Len(r.ref.e.v)  m == Len(r.x.v)
  IN IF ~(o.nf = n /\ o.y.s = <<n>> \o r.x.s) THEN {"number of filters"}
     ELSE Clause("responses are the kernel shifted to each eigenvalue",
            \A i \in 1..n : \A j \in 1..m :
               Eq(o.y.v[(i - 1) * m + j], K(r.kernel, r.x.v[j] - r.ref.e.v[i], r.lmax), r.tol))

(* Modulation: the localized kernel, modulated to each eigenvector.          *)
ModulationFail(r, L) ==
  LET o == r.out  n == Len(L)
  IN IF ~(o.nf = n /\ o.y.s = <<n, n>> /\ o.U.s = <<n, n>> /\ o.f.s = <<n, n>> /\ o.g.s = <<n, n>> /\ Bounded(o.U, 2 * S))
     THEN {"number of filters"}
     ELSE LET U == M2(o.U)  e == r.ref.e.v
              k == TLCEval([l \in 1..n |-> K(r.kernel, e[l], r.lmax)])
              c == MatVec(U, k)
              root == FSqrt(n * S)
              \* response of filter i at eigenvalue l
              resp == TLCEval([i \in 1..n |-> [l \in 1..n |->
                        FMul(root, SumF(LAMBDA v : FMul(FMul(U[v][l], U[v][i]), c[v]), n))]])
              X == r.s.v
              xh == MatVec(Transpose(U), X)
              kL == FunMat(U, k)
              \* modulation last: transform of the signal windowed by the localized kernel
              win == TLCEval([i \in 1..n |-> [l \in 1..n |->
                        n * SumF(LAMBDA v : FMul(FMul(U[v][l], X[v]), kL[v][i]), n)]])
          IN Clause("eigenvectors", EigenOK(L, e, U, 60))
             \cup Clause("responses are the modulated kernel", EqMat(M2(o.y), resp, r.tol))
             \cup Clause("no response off the eigenvalues", o.off.s = <<n, 1>> /\ ~ \E i \in 1..n : WF(o.off.v[i]))
             \cup Clause("filtering, modulation first",
                    EqMat(M2(o.f), [v \in 1..n |-> [i \in 1..n |->
                        SumF(LAMBDA l : FMul(FMul(U[v][l], resp[i][l]), xh[l]), n)]], r.tol))
             \cup Clause("filtering, localization first", EqMat(M2(o.g), win, r.tol))

FailC10(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE IF r.kind = "design" THEN DesignFail(r)
  ELSE LET L == Lap(M2(r.W), r.lt)
       IN IF ~Certified(L, r.ref) THEN {"certificate"}
          ELSE IF r.kind = "gabor" THEN GaborFail(r)
          ELSE IF r.kind = "modulation" THEN ModulationFail(r, L)
          ELSE {"unknown record"}
=============================================================================
