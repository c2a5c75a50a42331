--------------------------- MODULE RandomGraphsMC ---------------------------
(* The drawing processes, every draw being possible: what RandomGraphs says  *)
(* of their outcomes is invariant, and (by counting) no more than that.      *)
EXTENDS RandomGraphs, TLCExt, Json
CONSTANTS N, K    \* vertices; of the block models
VARIABLES kind, par, W, left, tries, at
vars == <<kind, par, W, left, tries, at>>
V == 1..(IF kind = "SBM" THEN K ELSE N)
Empty == [i \in V |-> [j \in V |-> 0]]
Linked(X, E) == [i \in V |-> [j \in V |-> IF <<i, j>> \in E \/ <<j, i>> \in E THEN S ELSE X[i][j]]]

InitBA == kind = "BA" /\ \E m0 \in 1..(N - 1) : \E m \in 1..m0 : par = [m0 |-> m0, m |-> m] /\ at = m0 + 1
          /\ left = [i \in V |-> 0] /\ tries = 0
(* A new vertex chooses m of those which are there: each may be chosen.      *)
Grow ==
  /\ kind = "BA" /\ at <= N
  /\ \E C \in SUBSET (1..(at - 1)) :
       Cardinality(C) = par.m /\ W' = Linked(W, {<<at, c>> : c \in C})
  /\ at' = at + 1 /\ UNCHANGED <<kind, par, left, tries>>

InitReg == kind = "Regular" /\ \E k \in 1..(N - 1) : (N * k) % 2 = 0 /\ par = [k |-> k] /\ at = 0
           /\ left = [i \in V |-> k] /\ tries = 3
Stub(u, v) == left[u] > 0 /\ left[v] > 0 /\ u # v /\ W[u][v] = 0
Pair ==
  /\ kind = "Regular" /\ at = 0
  /\ \E u, v \in V : Stub(u, v) /\ W' = Linked(W, {<<u, v>>}) /\ left' = [left EXCEPT ![u] = @ - 1, ![v] = @ - 1]
  /\ UNCHANGED <<kind, par, tries, at>>
Restart ==      \* from nothing, when there is no pair left to link
  /\ kind = "Regular" /\ at = 0 /\ tries > 0
  /\ \E u \in V : left[u] > 0 /\ \A v, w \in V : ~Stub(v, w)
  /\ W' = Empty /\ left' = [i \in V |-> par.k] /\ tries' = tries - 1
  /\ UNCHANGED <<kind, par, at>>
Finish == kind = "Regular" /\ at = 0 /\ (\A u \in V : left[u] = 0) /\ at' = 1 /\ UNCHANGED <<kind, par, W, left, tries>>

(* Blocks of probabilities 0, one half or 1; a trial draws all edges.        *)
Ps == {0, HALF, S}
InitSBM == kind = "SBM" /\ at = 0 /\ tries = 2 /\ left = [i \in V |-> 0]
  /\ \E a, b, c, d \in Ps, split \in 1..K, directed, loops, connected \in BOOLEAN :
       par = [P |-> <<<<a, b>>, <<c, d>>>>, z |-> [i \in V |-> IF i <= split THEN 1 ELSE 2],
              directed |-> directed, loops |-> loops, connected |-> connected]
Cells == {p \in V \X V : Drawn(p[1], p[2], par.directed, par.loops)}
Trial(E) == [i \in V |-> [j \in V |-> IF <<i, j>> \in E \/ (~par.directed /\ <<j, i>> \in E) THEN S ELSE 0]]
Draw ==
  /\ kind = "SBM" /\ at = 0 /\ tries > 0
  /\ LET sure == {p \in Cells : par.P[par.z[p[1]]][par.z[p[2]]] = S}
         open == {p \in Cells : par.P[par.z[p[1]]][par.z[p[2]]] = HALF}
     IN \E E \in SUBSET open :
          LET X == Trial(E \cup sure)
          IN IF par.connected /\ ~Connected(X)
             THEN W' = W /\ at' = (IF tries = 1 THEN 2 ELSE 0) /\ tries' = tries - 1
             ELSE W' = X /\ at' = 1 /\ UNCHANGED tries
  /\ UNCHANGED <<kind, par, left>>

Init == (InitBA \/ InitReg \/ InitSBM) /\ W = Empty
Next == Grow \/ Pair \/ Restart \/ Finish \/ Draw
Spec == Init /\ [][Next]_vars

Outcomes ==
  CASE kind = "BA" -> /\ Simple(W)
                      /\ at = N + 1 => BAAdmits(W, par.m0, par.m)
                      /\ \A i \in 1..(at - 1) : Cardinality(Older(W, i)) = IF i <= par.m0 THEN 0 ELSE par.m
    [] kind = "Regular" -> /\ Simple(W)
                           /\ \A i \in V : RowNnz(W, i) + left[i] = par.k
                           /\ at = 1 => RegularAdmits(W, par.k)
    [] kind = "SBM" ->
         LET d == par.directed  l == par.loops  c == par.connected
         IN /\ at = 1 => SBMAdmits(W, par.z, par.P, d, l) /\ (c => Connected(W)) /\ ~MustFail(par.z, par.P, d, c)
            /\ at = 2 => MayFail(par.z, par.P, d, c)
(* The parameters of the block models, for replay on the code.               *)
Emit == kind = "SBM" /\ at = 0 /\ tries = 2 => PrintT("P " \o ToJson(par))
(* Conversely, every graph that is admitted can be drawn.                    *)
VN == 1..N
AllBinary == {X \in [VN -> [VN -> {0, S}]] : \A i, j \in VN : i <= j => (X[i][j] = X[j][i] /\ (i = j => X[i][j] = 0))}
Final == (kind = "BA" /\ at = N + 1) \/ (kind = "Regular" /\ at = 1)
Mark == Final => TLCSet(1, TLCGet(1) \cup {<<kind, par, W>>})
Admitted ==
  UNION {{<<"BA", [m0 |-> q[1], m |-> q[2]], X>> : X \in {Y \in AllBinary : BAAdmits(Y, q[1], q[2])}} :
         q \in {r \in (1..(N - 1)) \X (1..(N - 1)) : r[2] <= r[1]}}
  \cup UNION {{<<"Regular", [k |-> k], X>> : X \in {Y \in AllBinary : RegularAdmits(Y, k)}} :
              k \in {j \in 1..(N - 1) : (N * j) % 2 = 0}}
ASSUME TLCSet(1, {})
AllDrawn == TLCGet(1) = Admitted
=============================================================================
