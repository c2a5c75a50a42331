---------------------------- MODULE RandomGraphs ----------------------------
(* What graphs drawn at random satisfy whatever was drawn. Weight matrices   *)
(* are as in GraphCore; vertices are numbered from 1.                        *)
EXTENDS Neighbors

Binary(W) == \A i, j \in 1..Len(W) : W[i][j] \in {0, S}
Simple(W) == Binary(W) /\ ~HasLoops(W) /\ ~Directed(W)

(* Stochastic block model: z the block of each vertex, P the probabilities.  *)
Drawn(i, j, directed, loops) == (i # j \/ loops) /\ (i >= j \/ directed)
Prob(z, P, i, j, directed) == IF directed \/ i >= j THEN P[z[i]][z[j]] ELSE P[z[j]][z[i]]
SBMAdmits(W, z, P, directed, loops) ==
  /\ Binary(W)
  /\ ~directed => ~Directed(W)
  /\ ~loops => ~HasLoops(W)
  /\ \A i, j \in 1..Len(W) :
       (i # j \/ loops) => LET q == Prob(z, P, i, j, directed)
                           IN (q = 0 => W[i][j] = 0) /\ (q = S => W[i][j] = S)
(* The least and the largest graphs which may be drawn.                      *)
Least(z, P, directed, loops) ==
  LET n == Len(z) IN TLCEval([i \in 1..n |-> [j \in 1..n |->
    IF (i # j \/ loops) /\ Prob(z, P, i, j, directed) = S THEN S ELSE 0]])
Largest(z, P, directed, loops) ==
  LET n == Len(z) IN TLCEval([i \in 1..n |-> [j \in 1..n |->
    IF (i # j \/ loops) /\ Prob(z, P, i, j, directed) > 0 THEN S ELSE 0]])
MustFail(z, P, directed, connected) == connected /\ ~Connected(Largest(z, P, directed, FALSE))
MayFail(z, P, directed, connected) == connected /\ ~Connected(Least(z, P, directed, FALSE))
(* The blocks' probabilities: p within, q between (numbers or sequences).    *)
Blocks(k, p, q) == [a \in 1..k |-> [b \in 1..k |->
  IF a = b THEN (IF Len(p) = 1 THEN p[1] ELSE p[a]) ELSE IF Len(q) = 1 THEN q[1] ELSE q[(a - 1) * k + b]]]

(* Preferential attachment: m0 unlinked vertices, each new one linked to m.  *)
Older(W, i) == {j \in 1..(i - 1) : W[i][j] # 0}
BAAdmits(W, m0, m) ==
  /\ Simple(W)
  /\ \A i \in 1..Len(W) : Cardinality(Older(W, i)) = IF i <= m0 THEN 0 ELSE m

RegularAdmits(W, k) == Simple(W) /\ \A i \in 1..Len(W) : RowNnz(W, i) = k

(* Communities: com the community of each vertex (from 1), sorted.           *)
Sizes(com, nc) == [c \in 1..nc |-> Cardinality({i \in DOMAIN com : com[i] = c})]
Half(n) == (n * (n - 1)) \div 2
IntraCount(W, com, c) ==
  Cardinality({p \in (1..Len(W)) \X (1..Len(W)) : p[1] < p[2] /\ com[p[1]] = c /\ com[p[2]] = c /\ W[p[1]][p[2]] # 0})
InterCount(W, com) ==
  Cardinality({p \in (1..Len(W)) \X (1..Len(W)) : p[1] < p[2] /\ com[p[1]] # com[p[2]] /\ W[p[1]][p[2]] # 0})
InterPairs(com) == Cardinality({p \in (1..Len(com)) \X (1..Len(com)) : p[1] < p[2] /\ com[p[1]] # com[p[2]]})

(* Rings: the gaps between successive angles (sorted, in [0, 2 pi)).         *)
Gap(a, i) == IF i < Len(a) THEN a[i + 1] - a[i] ELSE PI2 + a[1] - a[i]

(* n p of n draws, up to six standard deviations. p in hundredths.           *)
RECURSIVE ISqrtIter(_, _)
ISqrtIter(a, x) == LET y == (x + a \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtIter(a, y)
ISqrt(a) == IF a <= 0 THEN 0 ELSE ISqrtIter(a, a)
Plausible(count, n, p) == Abs(100 * count - n * p) <= 6 * ISqrt(n * p * (100 - p)) + 100
=============================================================================
