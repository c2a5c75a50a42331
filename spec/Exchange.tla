------------------------------ MODULE Exchange ------------------------------
(* Graphs and signals in other libraries. Values are compared exactly: they   *)
(* are strings (hexadecimal floats). Signals are sequences of records         *)
(* [n |-> name, a |-> array]; ZERO is the zero weight.     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
ZERO == "0x0.0p+0"
ONE == "0x1.0000000000000p+0"


(* ------------------------------- Signals -------------------------------- *)
Broken(sig) ==      \* a 2-D signal becomes one signal per column
  IF Len(sig.a.s) # 2 THEN <<sig>>
  ELSE LET n == sig.a.s[1]  m == sig.a.s[2]
       IN [j \in 1..m |-> [n |-> sig.n \o "_" \o ToString(j - 1),
                           a |-> [s |-> <<n>>, v |-> [i \in 1..n |-> sig.a.v[(i - 1) * m + j]]]]]
Break(sigs) == FoldLeft(LAMBDA acc, s : acc \o Broken(s), <<>>, sigs)

(* A name is base_k if it ends in an underscore and a decimal number.        *)
LastUnderscore(s) ==
  LET at == {i \in 1..Len(s) : SubSeq(s, i, i) = "_"}
  IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : j <= i
Numbers == {ToString(k) : k \in 0..40}
Number == [s \in Numbers |-> CHOOSE k \in 0..40 : ToString(k) = s]
Dim(s) ==           \* -1 if there is no number
  LET u == LastUnderscore(s)
      x == SubSeq(s, u + 1, Len(s))
  IN IF u > 0 /\ x \in Numbers THEN Number[x] ELSE -1
BaseOf(s) == SubSeq(s, 1, LastUnderscore(s) - 1)

(* Signals base_0, ..., base_(k-1), k >= 2, are joined as base.              *)
Join(sigs) ==
  LET dims == TLCEval([i \in 1..Len(sigs) |-> Dim(sigs[i].n)])
      bases == TLCEval([i \in 1..Len(sigs) |-> IF dims[i] < 0 THEN "" ELSE BaseOf(sigs[i].n)])
      names == {sigs[i].n : i \in 1..Len(sigs)}
      parts(b) == {i \in 1..Len(sigs) : dims[i] >= 0 /\ bases[i] = b}
      joins == TLCEval({b \in {bases[i] : i \in {j \in 1..Len(sigs) : dims[j] >= 0}} :
                 /\ b \notin names /\ Cardinality(parts(b)) >= 2
                 /\ {dims[i] : i \in parts(b)} = 0..(Cardinality(parts(b)) - 1)})
      joined(b) == LET m == Cardinality(parts(b))
                       part == TLCEval([k \in 1..m |-> sigs[CHOOSE i \in parts(b) : dims[i] = k - 1].a])
                       n == part[1].s[1]
                   IN [s |-> <<n, m>>, v |-> [q \in 1..(n * m) |-> part[((q - 1) % m) + 1].v[((q - 1) \div m) + 1]]]
  IN {[n |-> b, a |-> joined(b)] : b \in joins}
     \cup {sigs[i] : i \in {j \in 1..Len(sigs) : dims[j] < 0 \/ bases[j] \notin joins}}
(* Names that come back as they went.                                        *)
Plain(sigs) ==
  LET br == Break(sigs)
  IN /\ Cardinality({br[i].n : i \in 1..Len(br)}) = Len(br)
     /\ \A i \in 1..Len(sigs) : Len(sigs[i].a.s) = 2 => sigs[i].a.s[2] >= 2
     /\ Join(br) = ToSet(sigs)

(* -------------------------------- Graphs -------------------------------- *)
(* Weights as a flat array [s, v].                                           *)
At(W, i, j) == W.v[(i - 1) * W.s[1] + j]
IsDirected(W) == \E i, j \in 1..W.s[1] : At(W, i, j) # At(W, j, i)
(* The edges to export: <<source, target, weight>>, 0-based; one per pair if   *)
(* undirected.                                                               *)
EdgeSet(W) ==
  {e \in {<<i - 1, j - 1, At(W, i, j)>> : i \in 1..W.s[1], j \in 1..W.s[1]} : e[3] # ZERO}
Edges(W) == IF IsDirected(W) THEN EdgeSet(W) ELSE {e \in EdgeSet(W) : e[1] <= e[2]}
(* What is exported: the same vertices in order, edges, broken signals.      *)
Exported(W, sigs, x) ==
  /\ x.n = W.s[1]
  /\ x.directed = IF IsDirected(W) THEN "T" ELSE "F"
  /\ Len(x.edges) = Cardinality(Edges(W))
  /\ {IF IsDirected(W) \/ x.edges[k][1] <= x.edges[k][2] THEN x.edges[k]
      ELSE <<x.edges[k][2], x.edges[k][1], x.edges[k][3]>> : k \in DOMAIN x.edges} = Edges(W)
  /\ ToSet(x.attrs) = ToSet(Break(sigs)) /\ Len(x.attrs) = Len(Break(sigs))
=============================================================================
