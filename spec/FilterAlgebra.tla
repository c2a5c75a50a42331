--------------------------- MODULE FilterAlgebra ---------------------------
(* Filter banks as sequences of terms: base kernels, the complement of a bank, *)
(* the i-th filter of the inverse of a bank. Apply gives the bank that results *)
(* from an operation, EvalBank its responses at a sequence of points.        *)
EXTENDS Kernels

Base(c) == [t |-> "k", c |-> c]
(* Polynomials away from zero on [0, 4]. *)
BaseBanks == <<
  << Base(<<500000, 125000>>), Base(<<1000000, 0, -46875>>) >>,
  << Base(<<1000000, -125000>>) >>,
  << Base(<<250000>>), Base(<<-1000000, 62500>>), Base(<<500000, 0, 31250>>) >> >>

(* Python's slice of a sequence: from a, before b, every s (s > 0).          *)
Norm(i, n) == IF i < 0 THEN Max2(0, i + n) ELSE Min2(i, n)
Slice(seq, a, b, s) ==
  LET n == Len(seq)  lo == Norm(a, n)  hi == Norm(b, n)
      m == IF hi > lo THEN (hi - lo + s - 1) \div s ELSE 0
  IN [k \in 1..m |-> seq[lo + 1 + (k - 1) * s]]

Apply(b, o) ==
  CASE o.op = "new" -> BaseBanks[o.a]
    [] o.op = "index" -> << b[(IF o.a < 0 THEN o.a + Len(b) ELSE o.a) + 1] >>
    [] o.op = "slice" -> Slice(b, o.a, o.b, o.s)
    [] o.op = "add" -> b \o BaseBanks[o.a]
    [] o.op = "radd" -> BaseBanks[o.a] \o b
    [] o.op = "double" -> b \o b
    [] o.op = "complement" -> << [t |-> "c", bank |-> b, bound |-> o.a] >>
    [] o.op = "tighten" -> b \o << [t |-> "c", bank |-> b, bound |-> -1] >>
    [] o.op = "inverse" -> [i \in 1..Len(b) |-> [t |-> "i", bank |-> b, i |-> i]]
    [] o.op = "retarget" -> b

SumSqAt(rows, j) == FoldLeft(LAMBDA acc, row : acc + FSq(row[j]), 0, rows)
RECURSIVE EvalTerm(_, _)
EvalBank(b, xs) == TLCEval([i \in 1..Len(b) |-> EvalTerm(b[i], xs)])
EvalTerm(t, xs) ==
  CASE t.t = "k" -> [j \in 1..Len(xs) |-> Poly(t.c, xs[j])]
    [] t.t = "c" ->
         LET rows == EvalBank(t.bank, xs)
             ss == TLCEval([j \in 1..Len(xs) |-> SumSqAt(rows, j)])
             bound == IF t.bound < 0 THEN MaxSeq(ss) ELSE t.bound
         IN [j \in 1..Len(xs) |-> FSqrt(bound - ss[j])]
    [] t.t = "i" ->
         LET rows == EvalBank(t.bank, xs)
         IN [j \in 1..Len(xs) |->
              LET ss == SumSqAt(rows, j) IN IF ss < 10 THEN 0 ELSE FDiv(rows[t.i][j], ss)]

(* Where a complement is asked for a bound which the bank exceeds: the excess *)
(* (0 or less if feasible) over all complements inside the bank.             *)
RECURSIVE Excess(_, _)
Excess(b, xs) ==
  MaxSeq(<<-S>> \o [i \in 1..Len(b) |->
    IF b[i].t = "k" THEN -S
    ELSE LET inner == Excess(b[i].bank, xs)
         IN IF inner > 0 \/ b[i].t = "i" \/ b[i].bound < 0 THEN inner
            ELSE LET rows == EvalBank(b[i].bank, xs)
                 IN Max2(inner, MaxSeq([j \in 1..Len(xs) |-> SumSqAt(rows, j)]) - b[i].bound)])
=============================================================================
