-------------------------- MODULE FilterAlgebraMC --------------------------
(* All expressions of LEN operations, with the laws of the algebra as         *)
(* invariants, evaluated at sample points; emits the expressions.            *)
EXTENDS FilterAlgebra, Json
CONSTANT LEN
VARIABLES bank, ops
Op(n, a, b, s) == [op |-> n, a |-> a, b |-> b, s |-> s]
Points == <<0, 700000, 2000000, 3100000, 4000000>>

Operations(n) ==
  {Op("index", i, 0, 0) : i \in {-n, -1, 0, n - 1}} \cup
  {Op("slice", a, b, s) : a \in {0, 1}, b \in {-1, 1, 99}, s \in {1, 2}} \cup
  {Op("add", k, 0, 0) : k \in 1..3} \cup {Op("radd", 2, 0, 0)} \cup
  {Op("complement", b, 0, 0) : b \in {-1, 9000000, 300000}} \cup
  {Op("double", 0, 0, 0), Op("tighten", 0, 0, 0), Op("inverse", 0, 0, 0), Op("retarget", 0, 0, 0)}

Init == \E k \in 1..3 : bank = BaseBanks[k] /\ ops = <<Op("new", k, 0, 0)>>
Next == /\ Len(ops) <= LEN
        /\ Len(bank) <= 6
        /\ \E o \in Operations(Len(bank)) :
             /\ bank' = Apply(bank, o)
             /\ bank' # <<>>
             /\ ops' = Append(ops, o)
Spec == Init /\ [][Next]_<<bank, ops>>
Emit == PrintT("X " \o ToJson(ops'))

Feasible == Excess(bank, Points) <= 0
Laws ==
  LET rows == EvalBank(bank, Points)  last == ops[Len(ops)]
      inv == EvalBank(Apply(bank, Op("inverse", 0, 0, 0)), Points)
      tight == EvalBank(Apply(bank, Op("tighten", 0, 0, 0)), Points)
  IN Feasible =>
     /\ \A j, k \in 1..Len(Points) : Close(SumSqAt(tight, j), SumSqAt(tight, k), 60)
     /\ \A j \in 1..Len(Points) :
          SumSqAt(rows, j) > 100000 =>
            Close(FoldLeftDomain(LAMBDA acc, i : acc + FMul(rows[i][j], inv[i][j]), 0, rows), S, 200)
=============================================================================
