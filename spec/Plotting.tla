------------------------------ MODULE Plotting ------------------------------
(* What a figure shows, given a graph, its coordinates, its plotting         *)
(* attributes and the options of the call.                                   *)
EXTENDS GraphCore

(* Signals shown as sizes, widths or transparency are first mapped to        *)
(* [intercept, 1]; constant ones to the middle.                              *)
Lo(x) == MinSeq(x)
Hi(x) == MaxSeq(x)
Normalized(x, c) ==
  IF x = <<>> THEN <<>>
  ELSE IF Lo(x) = Hi(x) THEN [i \in 1..Len(x) |-> HALF]
  ELSE [i \in 1..Len(x) |-> FMul(S - c, FDiv(x[i] - Lo(x), Hi(x) - Lo(x))) + c]
VertexSizes(x, base, c) == LET z == Normalized(x, c) IN [i \in 1..Len(x) |-> FMul(4 * base, FSq(z[i]))]
EdgeWidths(x, base, c) == LET z == Normalized(x, c) IN [i \in 1..Len(x) |-> FMul(2 * base, z[i])]
EdgeAlphas(x, c) == LET z == Normalized(x, c) IN [i \in 1..Len(x) |-> FMul(900000, z[i])]
DefaultLimits(x) == <<Lo(x), Hi(x)>>

(* The edge list, in the order of the rows of the weight matrix. *)
EdgeSeq(W) ==
  LET n == Len(W)  dir == Directed(W)
      row(i) == SelectSeq([j \in 1..n |-> <<i, j>>], LAMBDA p : W[i][p[2]] # 0 /\ (dir \/ i <= p[2]))
  IN FoldLeftDomain(LAMBDA acc, i : acc \o row(i), <<>>, [i \in 1..n |-> 0])
Segments(E, X) == [k \in 1..Len(E) |-> <<X[E[k][1]], X[E[k][2]]>>]

(* Colors on a scale: stops at 1, 8, 24, 40, 56, 64 of 1..64, linear between.*)
STOPS == <<1, 8, 24, 40, 56, 64>>
COLORS == <<<<0, 0, 143>>, <<0, 0, 255>>, <<0, 255, 255>>, <<255, 255, 0>>, <<255, 0, 0>>, <<128, 0, 0>>>>
Between(q, stops, colors) ==       \* channels in 0..255, in units of Num
  LET k == CHOOSE j \in 1..(Len(stops) - 1) : q >= stops[j] /\ q <= stops[j + 1]
      f == FDiv(q - stops[k], stops[k + 1] - stops[k])
  IN [c \in 1..3 |-> colors[k][c] * S + (colors[k + 1][c] - colors[k][c]) * f]
OnScale(x, lo, hi) ==
  Between(IF hi = lo \/ x <= lo THEN S ELSE IF x >= hi THEN 64 * S ELSE S + 63 * FDiv(x - lo, hi - lo), [k \in 1..6 |-> STOPS[k] * S], COLORS)
SPECTRUM == <<<<20, 133, 212>>, <<53, 42, 135>>, <<48, 174, 170>>, <<210, 184, 87>>, <<249, 251, 14>>>>
OnSpectrum(x, lo, hi) ==
  Between(IF x <= lo THEN 0 ELSE IF x >= hi THEN S ELSE FDiv(x - lo, hi - lo), [k \in 1..5 |-> (k - 1) * 250000], SPECTRUM)
=============================================================================
