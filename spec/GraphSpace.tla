------------------------------ MODULE GraphSpace ------------------------------
(* All graphs on N vertices with integer weights up to K, built edge by edge. *)
(* TLC explores the whole space, checks the theory of the views of a graph on *)
(* it (so that the specification itself is right), and emits every graph for  *)
(* replay on the implementation.                                              *)
EXTENDS GraphCore, Json
CONSTANTS N, K, DIRECTED, LOOPS, EMIT
VARIABLES W, pos         \* the matrix, and the next cell to decide

Cells == {p \in (1..N) \X (1..N) :
            /\ (p[1] = p[2] => LOOPS)
            /\ (p[1] > p[2] => DIRECTED)}
Order == SetToSortSeq(Cells, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
vars == <<W, pos>>

Init == W = [i \in 1..N |-> [j \in 1..N |-> 0]] /\ pos = 1
Decide(w) ==
  /\ pos <= Len(Order)
  /\ LET i == Order[pos][1]  j == Order[pos][2]
     IN W' = IF DIRECTED THEN [W EXCEPT ![i][j] = w * S]
             ELSE [W EXCEPT ![i][j] = w * S, ![j][i] = w * S]
  /\ pos' = pos + 1
Next == \E w \in 0..K : Decide(w)
Spec == Init /\ [][Next]_vars
Complete == pos > Len(Order)

(* Theorems about the definitions, checked on every graph of the space. *)
L == CombLap(W)
RowsSumToZero == \A i \in 1..N : SumSeq(L[i]) = 0
LaplacianSymmetric == Symmetric(L)
LoopsInvisible ==
  L = CombLap([i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE W[i][j]]])
(* The quadratic form is half the weighted sum of squared differences, on the  *)
(* unit vectors and their sums (which determine a quadratic form).           *)
Energy(x) ==
  SumF(LAMBDA i : SumF(LAMBDA j : FMul(Sym(W)[i][j], FSq(x[i] - x[j])), N), N) \div 2
QuadraticForm ==
  \A a, b \in 1..N : LET x == Add(Unit(N, a), Unit(N, b))
                     IN Dot(x, MatVec(L, x)) = Energy(x)
SymmetricEdges == ~Directed(W) => NEdges(W) * 2 =
   SumF(LAMBDA i : RowNnz(W, i), N) + Cardinality({i \in 1..N : W[i][i] # 0})
ComponentsPartition ==
  ~Directed(W) => /\ UNION Components(W) = 1..N
                  /\ \A a, b \in Components(W) : a = b \/ a \cap b = {}
                  /\ (Cardinality(Components(W)) = 1 <=> Connected(W))
StronglyConnected ==
  Connected(W) <=> \A i \in 1..N : Reach(W, i) = 1..N
Theory == Complete =>
  /\ RowsSumToZero /\ LaplacianSymmetric /\ LoopsInvisible /\ QuadraticForm
  /\ SymmetricEdges /\ ComponentsPartition /\ StronglyConnected
Emit == (EMIT /\ Complete) =>
  PrintT("G " \o ToJson([i \in 1..N |-> [j \in 1..N |-> W[i][j] \div S]]))
=============================================================================
