------------------------------ MODULE UtilsMC ------------------------------
(* Symmetrizations of all small matrices, applied in any order.              *)
EXTENDS Utils, Json
CONSTANTS N, Value
VARIABLES W0, W, how
vars == <<W0, W, how>>
Init == /\ W0 \in [1..N -> [1..N -> Value]] /\ W = W0 /\ how = <<>>
Apply(m) == Len(how) < 1 /\ W' = Symmetrized(W, m) /\ how' = Append(how, m) /\ UNCHANGED W0
Next == \E k \in 1..5 : Apply(METHODS[k])
Spec == Init /\ [][Next]_vars

Symmetrical == how # <<>> => Symmetric(W)
Idempotent == Symmetric(W) => \A k \in 1..5 : Symmetrized(W, METHODS[k]) = W
Ordered == \A i, j \in 1..N :
  /\ Average(W)[i][j] <= Fill(W)[i][j] /\ Fill(W)[i][j] <= Maximum(W)[i][j]
  /\ Maximum(W)[i][j] = Max2(Tril(W)[i][j], Triu(W)[i][j])
(* All but the triangles treat a matrix and its transpose alike.             *)
Transposed == LET V == Transpose(W)
  IN Average(V) = Average(W) /\ Maximum(V) = Maximum(W) /\ Fill(V) = Fill(W) /\ Tril(V) = Triu(W)
(* No edge is created nor lost, except by the triangles.                     *)
Support == \A i, j \in 1..N : (Fill(W)[i][j] # 0) = (W[i][j] # 0 \/ W[j][i] # 0)
Emit == how = <<>> => PrintT("U " \o ToJson(W))
=============================================================================
