----------------------------- MODULE FilteringMC -----------------------------
(* All shapes of signals and numbers of filters, with the laws of analysis    *)
(* and synthesis as invariants; emits the cases.                             *)
EXTENDS Filtering, Json
CONSTANTS N, M
VARIABLES sh, nf, phase
Shapes == {<<N>>} \cup {<<N, k>> : k \in 1..(M + 1)} \cup {<<N, m, k>> : m \in 1..M, k \in 1..(M + 1)}
          \cup {<<N, 1, 2, 1>>}
Init == sh \in Shapes /\ nf \in 1..M /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<sh, nf>>
Emit == PrintT("S " \o ToJson([sh |-> sh, nf |-> nf]))
Spec == Init /\ [][Next]_<<sh, nf, phase>>
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
(* Small integer operators: any will do.                                     *)
Op(f) == [i \in 1..N |-> [j \in 1..N |-> (((i + j + f) % 4) - 1) * S]]
Ops == [f \in 1..nf |-> Op(f)]
V(k) == [q \in 1..k |-> (((q * 7) % 5) - 2) * S]
Laws ==
  LET t == Tensor(sh, nf)
  IN /\ (t = <<>>) = (Len(sh) > 3 \/ (Len(sh) = 3 /\ sh[3] \notin {1, nf}))
     /\ t # <<>> =>
        LET v == V(Prod(sh))  y == Filtered(Ops, v, t)
            to == <<t[1], t[2], FeaturesOut(t, nf)>>
        IN /\ Prod(t) = Prod(sh)
           /\ Len(y) = Prod(ShapeOut(sh, nf)) /\ Len(y) = Prod(to)
           \* the analysis of a signal among others is its own analysis
           /\ \A j \in 1..t[2], k \in 1..to[3] :
                SignalOf(y, to, j, k) =
                  IF t[3] = 1 THEN MatVec(Op(k), SignalOf(v, t, j, 1))
                  ELSE Filtered(Ops, FoldLeft(LAMBDA acc, i : acc \o [f \in 1..nf |-> SignalOf(v, t, j, f)[i]],
                                              <<>>, [i \in 1..N |-> i]), <<N, 1, nf>>)
           \* synthesis is the adjoint of analysis (for symmetric operators)
           /\ (t[3] = 1) =>
                LET w == V(Len(y)) IN
                  Dot(y, w) = Dot(v, IF nf = 1 THEN Filtered(Ops, w, <<N, t[2], 1>>) ELSE Filtered(Ops, w, to))
=============================================================================
