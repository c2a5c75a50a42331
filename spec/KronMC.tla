------------------------------- MODULE KronMC -------------------------------
(* Vertices eliminated one at a time, in any order, from every small         *)
(* connected graph. Emits graphs and kept sets for replay on the code.       *)
EXTENDS Kron, Json
CONSTANTS N, Weight
VARIABLES W, M, alive
vars == <<W, M, alive>>
Ends == {e \in (1..N) \X (1..N) : e[1] < e[2]}
AllW == {[i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE f[<<Min2(i, j), Max2(i, j)>>]]] : f \in [Ends -> Weight]}
Init == /\ W \in {X \in AllW : Connected(X)}
        /\ M = CombLap(W) /\ alive = 1..N
Step(v) == Cardinality(alive) > 1 /\ v \in alive /\ M' = Eliminate(M, v) /\ alive' = alive \ {v} /\ UNCHANGED W
Next == \E v \in 1..N : Step(v)
Spec == Init /\ [][Next]_vars

Tol == 60
Keep == SetToSortSeq(alive, LAMBDA a, b : a < b)
R == SubMat(M, Keep)
IsLaplacian == \A a \in 1..Len(R) :
  /\ Close(SumSeq(R[a]), 0, Tol)
  /\ \A b \in 1..Len(R) : Close(R[a][b], R[b][a], 4) /\ (a # b => R[a][b] <= 4)
Confluent ==    \* whatever the order of elimination
  LET E == Schur(CombLap(W), Keep) IN \A a, b \in 1..Len(R) : Close(R[a][b], E[a][b], Tol)
StaysConnected == Connected([a \in 1..Len(R) |-> [b \in 1..Len(R) |-> IF a # b /\ R[a][b] < -100 THEN S ELSE 0]])
KeepsResistances ==
  \A a, b \in 1..Len(R) : a # b =>
     LET r0 == Resistance(CombLap(W), Keep[a], Keep[b])
     IN Close(Resistance(R, a, b), r0, Tol + r0 \div 10000)
(* A tree path adds resistances; parallel paths add conductances; never more *)
(* than any path's.                                                          *)
Metric ==
  alive = 1..N => LET X == Resistances(CombLap(W))
    IN /\ \A i, j, k \in 1..N : X[i][k] <= X[i][j] + X[j][k] + Tol
       /\ \A i, j \in 1..N : W[i][j] # 0 => X[i][j] <= FDiv(S, W[i][j]) + Tol
       (* Foster: the shares of the edges of a connected graph sum to N - 1  *)
       /\ Close(SumF(LAMBDA i : SumF(LAMBDA j : IF j < i THEN FMul(W[i][j], X[i][j]) ELSE 0, N), N), (N - 1) * S, 20 * Tol)
Emit == PrintT("K " \o ToJson([W |-> W, keep |-> Keep]))
=============================================================================
