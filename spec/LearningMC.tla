----------------------------- MODULE LearningMC -----------------------------
(* Relaxing the vertices of small graphs one at a time, in any order, from   *)
(* arbitrary values.                                                         *)
EXTENDS Learning, Json
CONSTANTS N, Weight, Values, Taus, Depth
VARIABLES W, M, y, tau, x, steps
vars == <<W, M, y, tau, x, steps>>
Ends == {e \in (1..N) \X (1..N) : e[1] < e[2]}
VALS == {-S, 0, TWO}
AllW == {[i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE f[<<Min2(i, j), Max2(i, j)>>]]] : f \in [Ends -> Weight]}
L == CombLap(W)
Init == /\ W \in {X \in AllW : Connected(X)}
        /\ M \in SUBSET (1..N) \ {{}}
        /\ y \in {v \in [1..N -> Values] : \A i \in (1..N) \ M : v[i] = 0}
        /\ tau \in Taus
        /\ x = [i \in 1..N |-> IF i \in M THEN y[i] ELSE MaxSeq(y)]   \* unmeasured values anywhere in range
        /\ steps = 0
Step(i) == /\ steps < Depth /\ (tau > 0 \/ i \notin M)
           /\ x' = Relax(L, M, y, tau, x, i) /\ steps' = steps + 1 /\ UNCHANGED <<W, M, y, tau>>
Next == \E i \in 1..N : Step(i)
Spec == Init /\ [][Next]_vars

Tol == 40
(* The cost never increases, and a point that no step improves is optimal.   *)
Descends == [][Cost(L, M, y, tau, x') <= Cost(L, M, y, tau, x) + Tol]_vars
Measured == {y[i] : i \in M}
MaximumPrinciple == \A i \in 1..N : \E lo, hi \in Measured \cup {MaxSeq(y)} : lo - Tol <= x[i] /\ x[i] <= hi + Tol
Kept == tau = 0 => \A i \in M : x[i] = y[i]
StuckIsOptimal ==
  (\A i \in 1..N : (tau = 0 /\ i \in M) \/ \A j \in 1..N : Close(Relax(L, M, y, tau, x, i)[j], x[j], 1))
     => Recovers(L, M, y, tau, x, 20)
(* Constant measurements are recovered as that constant.                     *)
Constant == Cardinality(Measured) = 1 => Recovers(L, M, y, tau, [i \in 1..N |-> CHOOSE v \in Measured : TRUE], 4)
Emit == steps = 0 => PrintT("L " \o ToJson([W |-> W, M |-> SetToSortSeq(M, LAMBDA a, b : a < b), y |-> y, tau |-> tau]))
=============================================================================
