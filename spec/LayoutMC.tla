------------------------------ MODULE LayoutMC ------------------------------
(* Histories of layouts of a graph, the Fourier basis being computed by some *)
(* of them, and communities being known or not.                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Depth
VARIABLES coords,     \* the layout the coordinates come from
          basis,      \* number of eigenvectors available
          com,        \* communities are "none", "good" or "bad" (labels with gaps)
          hist
vars == <<coords, basis, com, hist>>
Free == {"array1", "array2", "array3", "line1D", "line2D", "ring2D", "random2D", "random3D", "spring", "spring3", "fixed"}
Bad == {"array-short", "array-wide", "spring-pos", "unknown"}
Needed == [x \in {"laplacian_eigenmap2D", "laplacian_eigenmap3D"} |-> IF x = "laplacian_eigenmap2D" THEN 3 ELSE 4]
Init == coords = "initial" /\ basis \in {0, 2, N} /\ com \in {"none", "good", "bad"} /\ hist = <<>>
Log(a) == Len(hist) < Depth /\ hist' = Append(hist, a)
SetFree(a) == a \in Free /\ Log(a) /\ coords' = a /\ UNCHANGED <<basis, com>>
Refused(a) == a \in Bad /\ Log(a) /\ UNCHANGED <<coords, basis, com>>
Eigenmap(a) == /\ a \in DOMAIN Needed /\ Log(a)
               /\ IF Needed[a] > N THEN UNCHANGED <<coords, basis>>
                  ELSE coords' = a /\ basis' = IF basis >= Needed[a] THEN basis ELSE Needed[a]
               /\ UNCHANGED com
Community == /\ Log("community2D")
             /\ coords' = IF com = "good" THEN "community2D" ELSE coords
             /\ UNCHANGED <<basis, com>>
Next == (\E a \in Free : SetFree(a)) \/ (\E a \in Bad : Refused(a))
        \/ (\E a \in DOMAIN Needed : Eigenmap(a)) \/ Community
Spec == Init /\ [][Next]_vars

Accepted(a) == \/ a \in Free
               \/ a \in DOMAIN Needed /\ Needed[a] <= N
               \/ a = "community2D" /\ com = "good"
RECURSIVE LastAccepted(_)
LastAccepted(h) == IF h = <<>> THEN "initial"
                   ELSE IF Accepted(h[Len(h)]) THEN h[Len(h)]
                   ELSE LastAccepted(SubSeq(h, 1, Len(h) - 1))
(* The position of the vertices is the one of the last accepted layout,      *)
(* whatever was attempted since.                                             *)
LastOneWins == coords = LastAccepted(hist)
BasisSuffices == coords \in DOMAIN Needed => basis >= Needed[coords]
BasisGrows == [][basis' >= basis]_vars
Emit == Len(hist) = Depth => PrintT("L " \o ToJson([com |-> com, hist |-> hist]))
=============================================================================
