--------------------------- MODULE ConstructorsMC ---------------------------
(* Every constructor on every small parameter, with what is known of these   *)
(* graphs as invariants; emits the parameters for replay on the code.        *)
EXTENDS Constructors, Json
CONSTANTS M
VARIABLES c, p, done
Init ==
  /\ done = FALSE
  /\ \/ c \in {"Path", "DirectedPath", "Star", "FullConnected"} /\ p \in {<<n>> : n \in 1..M}
     \/ c = "Ring" /\ p \in {<<n, k>> : n \in 3..M, k \in 1..(M \div 2)} /\ 2 * p[2] <= p[1]
     \/ c = "Comet" /\ p \in {<<n, k>> : n \in 1..M, k \in 0..(M - 1)} /\ p[2] <= p[1] - 1
     \/ c = "Grid2d" /\ p \in {<<a, b>> : a \in 1..5, b \in 2..5}
     \/ c = "Torus" /\ p \in {<<a, b>> : a \in 3..5, b \in 3..5}
     \/ c = "LowStretchTree" /\ p \in {<<1>>, <<2>>, <<3>>}
Next == ~done /\ done' = TRUE /\ UNCHANGED <<c, p>>
Spec == Init /\ [][Next]_<<c, p, done>>
Emit == PrintT("C " \o ToJson([c |-> c, p |-> p]))

W == Weights(c, p, TWO)
n == Size(c, p)
Deg(i) == RowNnz(W, i)
Simple == ~HasLoops(W) /\ (c # "DirectedPath" => ~Directed(W))
Tree == Connected(W) /\ NEdges(W) = n - 1
Regular(k) == \A i \in 1..n : Deg(i) = k
Dist2(x, y) == SumSeq([d \in 1..Len(x) |-> FSq(x[d] - y[d])])
Known ==
  CASE c = "Path" -> Tree /\ W = Weights("Grid2d", <<1, n>>, S) /\ W = Weights("Comet", <<n, 0>>, S)
    [] c = "DirectedPath" -> n > 1 => (~Connected(W) /\ Sum2(W, Transpose(W)) = Weights("Path", p, S))
    [] c = "Ring" -> Connected(W) /\ Regular(IF 2 * p[2] = n THEN 2 * p[2] - 1 ELSE 2 * p[2])
                     /\ (p[2] = n \div 2 => W = Weights("FullConnected", <<n>>, S))
    [] c = "Comet" -> Tree /\ (p[2] = n - 1 => W = Weights("Star", <<n>>, S))
                      /\ (p[2] \in 1..(n - 2) => Deg(1) = p[2] /\ Deg(n) = 1)
    [] c = "Star" -> Tree /\ Deg(1) = n - 1
    [] c = "FullConnected" -> Regular(n - 1)
    [] c = "Grid2d" ->
         /\ Connected(W)
         /\ NEdges(W) = p[1] * (p[2] - 1) + (p[1] - 1) * p[2] + 2 * (p[1] - 1) * (p[2] - 1)
         /\ \A i, j \in 1..n : (W[i][j] # 0) = (i # j /\ LET x == Coords(c, p)
              IN Abs(x[i][1] - x[j][1]) <= S \div p[2] + 1 /\ Abs(x[i][2] - x[j][2]) <= S \div p[1] + 1)
    [] c = "Torus" -> Connected(W) /\ Regular(4)
    [] c = "LowStretchTree" ->
         /\ Tree
         /\ \A e \in TreeE(p[1]) : Dist2(Coords(c, p)[e[1] + 1], Coords(c, p)[e[2] + 1]) = S
Circle ==
  c = "Ring" => \A i \in 1..n : Close(FSq(Coords(c, p)[i][1]) + FSq(Coords(c, p)[i][2]), S, 30)
LineLaws ==   \* the line graph of a star is complete, of a ring is a ring
  /\ c = "Star" => LineW(SetToSortSeq(StarE(n), LAMBDA a, b : a[2] < b[2])) = Weights("FullConnected", <<n - 1>>, S)
  /\ c = "Ring" /\ p[2] = 1 =>
       LineW([i \in 1..n |-> <<i - 1, i % n>>]) = W
Laws == Simple /\ Known /\ Circle /\ LineLaws
=============================================================================
