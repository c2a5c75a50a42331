------------------------------ MODULE GraphCore ------------------------------
(* What a graph is: every view of it as a function of its weight matrix.     *)
EXTENDS Mat

(* Undirected if symmetric. *)
Directed(W) == \E i, j \in 1..Len(W) : W[i][j] # W[j][i]
HasLoops(W) == \E i \in 1..Len(W) : W[i][i] # 0
Weighted(W) == \E i, j \in 1..Len(W) : W[i][j] # 0 /\ W[i][j] # S

Pairs(W) ==   \* the edges, as ordered pairs; i <= j if undirected
  IF Directed(W)
  THEN {p \in (1..Len(W)) \X (1..Len(W)) : W[p[1]][p[2]] # 0}
  ELSE {p \in (1..Len(W)) \X (1..Len(W)) : p[1] <= p[2] /\ W[p[1]][p[2]] # 0}
NEdges(W) == Cardinality(Pairs(W))

RowNnz(W, i) == Cardinality({j \in 1..Len(W) : W[i][j] # 0})
ColNnz(W, i) == Cardinality({j \in 1..Len(W) : W[j][i] # 0})
RowSum(W, i) == SumSeq(W[i])
ColSum(W, i) == SumSeq([j \in 1..Len(W) |-> W[j][i]])

(* Degrees (in units of Num) and weighted degrees: directed graphs take the  *)
(* mean of in- and out-degrees. A self-loop counts once.                     *)
Degree(W) ==
  TLCEval([i \in 1..Len(W) |->
    IF Directed(W) THEN (RowNnz(W, i) + ColNnz(W, i)) * HALF ELSE RowNnz(W, i) * S])
WDegree(W) ==
  LET dir == Directed(W)
  IN TLCEval([i \in 1..Len(W) |->
       IF dir THEN (RowSum(W, i) + ColSum(W, i)) \div 2 ELSE ColSum(W, i)])

Sym(W) ==
  TLCEval([i \in 1..Len(W) |-> [j \in 1..Len(W) |->
    IF i = j THEN W[i][i] ELSE (W[i][j] + W[j][i]) \div 2]])

CombLap(W) ==
  LET X == Sym(W)  dw == WDegree(W)
  IN TLCEval([i \in 1..Len(W) |-> [j \in 1..Len(W) |->
       IF i = j THEN dw[i] - X[i][i] ELSE -X[i][j]]])
NormLap(W) ==
  LET X == Sym(W)  dw == WDegree(W)
  IN TLCEval([i \in 1..Len(W) |-> [j \in 1..Len(W) |->
       IF dw[i] = 0 \/ dw[j] = 0 THEN 0
       ELSE (IF i = j THEN S ELSE 0) -
            (IF i = j THEN FDiv(X[i][i], dw[i])
             ELSE FDiv(FDiv(X[i][j], FSqrt(dw[i])), FSqrt(dw[j])))]])
Lap(W, lt) == IF lt = "combinatorial" THEN CombLap(W) ELSE NormLap(W)

(* The entry of the differential operator at each end of an edge (s, t, w).  *)
EdgeRoot(w, d, lt, dir) ==
  LET v == IF lt = "combinatorial" THEN w ELSE FDiv(w, d)
  IN FSqrt(IF dir THEN v \div 2 ELSE v)

(* Connectivity. *)
RECURSIVE Closure(_, _)
Closure(A, R) ==      \* vertices reachable from R, A[i] the successors of i
  LET T == R \cup UNION {A[i] : i \in R}
  IN IF T = R THEN R ELSE Closure(A, T)
Succ(W) == TLCEval([i \in 1..Len(W) |-> {j \in 1..Len(W) : W[i][j] # 0}])
Pred(W) == TLCEval([i \in 1..Len(W) |-> {j \in 1..Len(W) : W[j][i] # 0}])
Reach(W, i) == Closure(Succ(W), {i})
Connected(W) ==
  /\ Closure(Succ(W), {1}) = 1..Len(W)
  /\ Closure(Pred(W), {1}) = 1..Len(W)
Components(W) == LET A == Succ(W) IN {Closure(A, {i}) : i \in 1..Len(W)}

(* ------------------------------- Verdicts ------------------------------- *)
(* A recorded edge list: 0-based end points and weights.                     *)
EdgeListOK(W, src, tgt, wgt) ==
  LET m == NEdges(W)  dir == Directed(W)  n == Len(W)
  IN /\ src.s = <<m>> /\ tgt.s = <<m>> /\ wgt.s = <<m>>
     /\ \A k \in 1..m : src.v[k] \in 0..(n - 1) /\ tgt.v[k] \in 0..(n - 1)
     /\ \A k \in 1..m : LET w == W[src.v[k] + 1][tgt.v[k] + 1]
                        IN w # 0 /\ Eq(wgt.v[k], w, 2)
     /\ Cardinality({IF dir \/ src.v[k] <= tgt.v[k] THEN <<src.v[k], tgt.v[k]>>
                     ELSE <<tgt.v[k], src.v[k]>> : k \in 1..m}) = m

(* One look at all views of a graph. *)
ViewFail(W, o) ==
  LET n == Len(W)
  IN Clause("vertex count", o.n = n /\ o.N = n)
     \cup Clause("edge count", o.ne = NEdges(W) /\ o.Ne = NEdges(W))
     \cup Clause("weights", IsMat(o.W, W, 2))
     \cup Clause("binary adjacency",
            IsMat(o.A, [i \in 1..n |-> [j \in 1..n |-> IF W[i][j] # 0 THEN S ELSE 0]], 0))
     \cup Clause("degrees", IsVec(o.d, Degree(W), 2))
     \cup Clause("weighted degrees", IsVec(o.dw, WDegree(W), 20))
     \cup Clause("edge list", EdgeListOK(W, o.src, o.tgt, o.wgt))
     \cup Clause("directed flag", o.directed = IF Directed(W) THEN "T" ELSE "F")
     \cup Clause("weighted flag", o.weighted = IF Weighted(W) THEN "T" ELSE "F")
     \cup Clause("loops flag", o.loops = IF HasLoops(W) THEN "T" ELSE "F")
=============================================================================
