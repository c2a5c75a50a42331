----------------------------- MODULE PlottingMC -----------------------------
(* Scenes of all small graphs and signals.                                   *)
EXTENDS Plotting
CONSTANTS N, Value, Intercepts
VARIABLES W, x, c
vars == <<W, x, c>>
Cells == (1..N) \X (1..N)
Init == /\ W \in [1..N -> [1..N -> {0, S}]]
        /\ x \in [1..N -> Value] /\ c \in Intercepts
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

X == [i \in 1..N |-> <<i * S, x[i]>>]
EachEdgeOnce == LET E == EdgeSeq(W) IN Len(E) = NEdges(W) /\ {E[k] : k \in 1..Len(E)} = Pairs(W)
SegmentsJoinNeighbors == LET E == EdgeSeq(W)  sg == Segments(E, X)
  IN \A k \in 1..Len(E) : W[E[k][1]][E[k][2]] # 0 /\ sg[k] = <<X[E[k][1]], X[E[k][2]]>>
(* Sizes range from a quarter to four times the base (half to twice the      *)
(* diameter), widths from half to twice, both increase with the signal.      *)
Ranges == LET s == VertexSizes(x, 100 * S, c)  w == EdgeWidths(x, S, c)
  IN \A i \in 1..N : /\ s[i] >= FMul(400 * S, FSq(c)) - 500 /\ s[i] <= 400 * S
                     /\ w[i] >= 2 * c /\ w[i] <= 2 * S
                     /\ \A j \in 1..N : x[i] < x[j] => s[i] < s[j] /\ w[i] < w[j]
Shifted == LET y == [i \in 1..N |-> x[i] + S] IN VertexSizes(y, S, c) = VertexSizes(x, S, c)
Covered == LET l == DefaultLimits(x) IN \A i \in 1..N : x[i] >= l[1] /\ x[i] <= l[2]
ScaleEnds == LET l == DefaultLimits(x) IN l[1] < l[2] =>
  OnScale(l[1], l[1], l[2]) = [k \in 1..3 |-> COLORS[1][k] * S] /\ OnScale(l[2], l[1], l[2]) = [k \in 1..3 |-> COLORS[6][k] * S]
=============================================================================
