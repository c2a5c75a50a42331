------------------------------ MODULE TraceC09 ------------------------------
(* Expressions of filter banks, evaluated by the implementation.             *)
EXTENDS FilterAlgebra, Spectral, TraceBase

Same(y, v, tol) == Eq(y, v, tol) \/ (WF(y) /\ Abs(y) < 30 * S /\ y * v >= -10 * tol /\ Close(FSq(y), FSq(v), tol))
Finite(o) == AllWF(o.y)
LookFail(bank, o) ==
  LET xs == o.x.v  m == Len(xs)  nf == Len(bank)
      ex == Excess(bank, xs)
  IN IF ~(o.nf = nf /\ o.len = nf) THEN {"length of the bank"}
     ELSE IF ex > 200 THEN Clause("an infeasible bound is refused", o.exc = "ValueError")
     ELSE IF ex > -200 /\ o.exc = "ValueError" THEN {}
     ELSE IF o.exc # "" THEN {"evaluation raised " \o o.exc}
     ELSE IF o.y.s # <<nf>> \o o.x.s \/ o.called.s # o.y.s THEN {"shape of the values is kept"}
     ELSE LET rows == EvalBank(bank, xs)
              vague == \* inverses where the bank vanishes
                [i \in 1..nf |-> [j \in 1..m |->
                   bank[i].t = "i" /\ SumSqAt(EvalBank(bank[i].bank, xs), j) < 20000]]
              ss == [j \in 1..m |-> SumSqAt(rows, j)]
          IN Clause("evaluation of each filter, in order",
               \A i \in 1..nf : \A j \in 1..m :
                  vague[i][j] \/ Same(o.y.v[(i - 1) * m + j], rows[i][j], 500 + Abs(rows[i][j]) \div 500))
             \cup Clause("calling the bank evaluates it", o.called = o.y)
             \cup Clause("frame bounds are the extrema of the sum of squares",
                  (\A i \in 1..nf : \A j \in 1..m : ~vague[i][j]) =>
                    /\ Eq(o.A, MinSeq(ss), 2000 + MinSeq(ss) \div 100)
                    /\ Eq(o.B, MaxSeq(ss), 2000 + MaxSeq(ss) \div 100))

(* The same bank evaluated at other points, and again at the first ones.     *)
AgainFail(bank, o) ==
  LET xs == o.x2.v  m == Len(xs)  nf == Len(bank)
      ex == Excess(bank, xs)
  IN Clause("banks are unchanged by what is done with them", o.again = "T")
     \cup IF ex > 200 THEN Clause("an infeasible bound is refused", o.exc2 = "ValueError")
     ELSE IF ex > -200 /\ o.exc2 = "ValueError" THEN {}
     ELSE IF o.exc2 # "" THEN {"evaluation raised " \o o.exc2}
     ELSE LET rows == EvalBank(bank, xs)
          IN Clause("evaluation doesn't depend on earlier evaluations",
               /\ o.y2.s = <<nf, m>>
               /\ \A i \in 1..nf : \A j \in 1..m :
                    \/ bank[i].t = "i" /\ SumSqAt(EvalBank(bank[i].bank, xs), j) < 20000
                    \/ Same(o.y2.v[(i - 1) * m + j], rows[i][j], 500 + Abs(rows[i][j]) \div 500))

RECURSIVE Banks(_, _)
Banks(ops, b) == IF ops = <<>> THEN <<>>
                 ELSE LET c == Apply(b, Head(ops)) IN <<c>> \o Banks(Tail(ops), c)

(* Default frame bounds: over a grid of 1000 points.                         *)
GridFail(r) ==
  LET b == Banks(r.ops, <<>>)[Len(r.ops)]
      xs == [j \in 1..1000 |-> (j - 1) * (r.lmax \div 999)]
      rows == EvalBank(b, xs)
      ss == TLCEval([j \in 1..1000 |-> SumSqAt(rows, j)])
  IN Clause("default frame bounds are extrema over the spectrum",
       Eq(r.out.A, MinSeq(ss), 400) /\ Eq(r.out.B, MaxSeq(ss), 400))

(* Analysis, then synthesis by the inverse.                                  *)
InverseFail(r) ==
  LET L == Lap(M2(r.W), "combinatorial")
  IN IF ~Certified(L, r.ref) THEN {"certificate"}
     ELSE LET e == [i \in DOMAIN r.ref.e.v |-> Max2(0, r.ref.e.v[i])]
              b == Banks(r.ops, <<>>)[Len(r.ops)]
              rows == EvalBank(b, e)
              low == MinSeq([j \in 1..Len(e) |-> SumSqAt(rows, j)])
          IN Clause("the inverse undoes the analysis", low > 20000 => IsVec(r.out.z, r.s.v, 30))
             \cup Clause("analysis energy is within the frame bounds",
                  LET E == Dot(r.s.v, r.s.v)
                      hi == MaxSeq([j \in 1..Len(e) |-> SumSqAt(rows, j)])
                  IN (Bounded(r.out.c, 100 * S) /\ low > 20000) =>
                       LET C == Dot(r.out.c.v, r.out.c.v)
                       IN C >= FMul(low, E) - 3000 /\ C <= FMul(hi, E) + 3000)

Spectrum == [j \in 1..41 |-> (j - 1) * 100000]
FailC09(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE IF r.kind = "expression"
  THEN LET bs == Banks(r.ops, <<>>)
       IN UNION {LookFail(bs[k], r.out.looks[k]) \cup AgainFail(bs[k], r.out.looks[k]) : k \in DOMAIN r.out.looks}
          \cup Clause("operations raise no error (but to invert an infeasible complement)",
                 \/ r.out.stop = "" /\ Len(r.out.looks) = Len(r.ops)
                 \/ /\ r.out.stop = "ValueError"
                    /\ LET k == Len(r.out.looks)
                       IN r.ops[k + 1].op = "inverse" /\ Excess(bs[k], Spectrum) > -S \div 50)
          \cup Clause("retargeting keeps the kernels and changes the graph", r.out.target = "T")
  ELSE IF r.kind = "grid" THEN GridFail(r)
  ELSE IF r.kind = "inverse" THEN InverseFail(r)
  ELSE {"unknown record"}
=============================================================================
