----------------------------- MODULE SparsifyMC -----------------------------
(* Sampling the edges of every small connected graph, with a second round of *)
(* draws if the first leaves it disconnected.                                *)
EXTENDS Sparsify, Json
CONSTANTS N, Weight, Q1, Q2
VARIABLES W, R, counts, round, phase
vars == <<W, R, counts, round, phase>>
Ends == {e \in (1..N) \X (1..N) : e[1] < e[2]}
AllW == {[i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE f[<<Min2(i, j), Max2(i, j)>>]]] : f \in [Ends -> Weight]}
None == [e \in EdgesOf(W) |-> 0]
Init == /\ W \in {X \in AllW : Connected(X)}
        /\ R = Resistances(CombLap(W))
        /\ counts = None /\ round = 1 /\ phase = "draw"
Q(r) == IF r = 1 THEN Q1 ELSE Q2
Drawn == FoldSet(LAMBDA e, acc : acc + counts[e], 0, EdgesOf(W))
Draw(e) == /\ phase = "draw" /\ Drawn < Q(round)
           /\ counts' = [counts EXCEPT ![e] = @ + 1] /\ UNCHANGED <<W, R, round, phase>>
Weights == [i \in 1..N |-> [j \in 1..N |->
              IF W[i][j] = 0 THEN 0
              ELSE LET e == <<Min2(i, j), Max2(i, j)>> IN counts[e] * UnitShare(W, R, Q(round), e)]]
Finish == /\ phase = "draw" /\ Drawn = Q(round)
          /\ IF Connected(Weights) \/ round = 2 THEN phase' = "done" /\ UNCHANGED <<W, R, counts, round>>
             ELSE round' = 2 /\ counts' = None /\ UNCHANGED <<W, R, phase>>
Next == Finish \/ \E e \in EdgesOf(W) : Draw(e)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Tol == 100
Begin == round = 1 /\ Drawn = 0
Foster == Begin => Close(Total(W, R), (N - 1) * S, Tol)
(* The mean weight of an edge is its original weight.                        *)
Unbiased == Begin => \A e \in EdgesOf(W) :
  Close(FMul(FDiv(Carried(W, R, e), Total(W, R)), Q1 * UnitShare(W, R, Q1, e)), W[e[1]][e[2]], Tol)
(* The resistance carried is conserved whatever the draws.                   *)
Conserved == phase = "done" =>
  Close(FoldSet(LAMBDA e, acc : acc + FMul(Weights[e[1]][e[2]], R[e[1]][e[2]]), 0, EdgesOf(W)), Total(W, R), 2 * Tol)
Subgraph == \A i, j \in 1..N : Weights[i][j] >= 0 /\ (Weights[i][j] # 0 => W[i][j] # 0) /\ Weights[i][j] = Weights[j][i]
Countable == phase = "done" => \A e \in EdgesOf(W) :
  Close(Draws(Weights[e[1]][e[2]], R, Q(round), Total(W, R), e), counts[e] * S, 20 * Tol)
(* More edges never increase a resistance (Rayleigh), edges bound it.        *)
Rayleigh == Begin => \A e \in EdgesOf(W) :
  LET V == [i \in 1..N |-> [j \in 1..N |-> IF {i, j} = {e[1], e[2]} THEN 2 * W[i][j] ELSE W[i][j]]]
      T == Resistances(CombLap(V))
  IN \A i, j \in 1..N : T[i][j] <= R[i][j] + Tol
(* The same resistances from a pseudo-inverse by elimination of the constant.*)
Stops == <>(phase = "done")
Emit == Begin => PrintT("K " \o ToJson(W))
=============================================================================
