------------------------------ MODULE TraceC13 ------------------------------
(* Graphs built by the deterministic constructors.                           *)
EXTENDS Constructors, TraceBase
NN == INSTANCE Neighbors

ConstructFail(r) ==
  LET n == Size(r.c, r.p)  W == Weights(r.c, r.p, r.w)
  IN Clause(r.c \o ": weights", IsMat(r.out.W, W, 1))
     \cup Clause(r.c \o ": coordinates",
            IF r.c = "FullConnected" THEN r.out.coords.s = <<-1>>
            ELSE IsMat(r.out.coords, Coords(r.c, r.p), 20))
     \cup Clause(r.c \o ": parameters kept", r.out.attrs = r.attrs)
     \cup Clause(r.c \o ": plotting attributes asked for", r.size \in {0, r.out.drawn})
     \cup Clause(r.c \o ": Laplacian type asked for",
            r.out.lt = r.lt /\ (n > 40 \/ IsMat(r.out.L, Lap(W, r.lt), 20)))

(* src, tgt: the edge list of the original graph, W its weights.             *)
LineFail(r) ==
  LET W == M2(r.W)  o == r.out
      es == [k \in 1..Len(o.src.v) |-> <<o.src.v[k], o.tgt.v[k]>>]
      mid(k) == [d \in 1..r.coords.s[2] |->
                  (M2(r.coords)[es[k][1] + 1][d] + M2(r.coords)[es[k][2] + 1][d]) \div 2]
  IN Clause("line graph: edges of the original", EdgeListOK(W, o.src, o.tgt, o.wgt))
     \cup (IF ~EdgeListOK(W, o.src, o.tgt, o.wgt) THEN {}
           ELSE Clause("line graph: weights", IsMat(o.W, LineW(es), 0))
                \cup Clause("line graph: coordinates",
                       IF r.coords.s = <<-1>> THEN o.coords.s = <<-1>>
                       ELSE o.coords.s = <<Len(es), r.coords.s[2]>> /\
                            \A k \in 1..Len(es) : EqVec(M2(o.coords)[k], mid(k), 2)))

(* A data set: o.e the edges as <<smaller end, larger end, weight>>, r.e what*)
(* the data says (for the airfoil and the map of Minnesota, without weights).*)
Ends(e) == {<<IF x[1] <= x[2] THEN x[1] ELSE x[2], IF x[1] <= x[2] THEN x[2] ELSE x[1]>> : x \in ToSet(e)}
DataEdges(r) ==
  LET o == r.out  ends == Ends(o.e)
  IN CASE r.name = "Airfoil" -> ends = Ends(r.e) /\ \A k \in 1..Len(o.e) : o.e[k][3] = HALF
       [] r.name = "Minnesota" ->
            IF r.connected = "T"
            THEN ends = Ends(r.e) \cup {<<348, 354>>} /\ \A k \in 1..Len(o.e) : o.e[k][3] = S
            ELSE ToSet(o.e) = ToSet(r.e)
       [] r.name \in {"Logo", "DavidSensorNet"} ->
            ToSet(o.e) = ToSet(r.e)
DataFail(r) ==
  LET o == r.out
  IN Clause(r.name \o ": edges and weights",
       DataEdges(r) /\ Len(o.e) = Cardinality(Ends(o.e)))
     \cup Clause(r.name \o ": undirected, without self-loop",
            o.directed = "F" /\ o.symmetric = "T" /\ \A k \in 1..Len(o.e) : o.e[k][1] < o.e[k][2])
     \cup Clause(r.name \o ": coordinates and annotations", o.coords = r.coords /\ o.info = r.info)
     \cup Clause(r.name \o ": size", o.n = r.n)

(* Nearest-neighbor data sets: the weights of a few vertices, from the       *)
(* points (in thousandths, for the precision of small distances).            *)
RowOf(r, X, q) ==
  LET i == r.sample[q] + 1  n == Len(X)
      d == TLCEval([j \in 1..n |-> IF r.milli = 1 THEN NN!Dist(X[i], X[j], "euclidean", 2)
                          ELSE IF \E c \in 1..Len(X[1]) : Abs(X[i][c] - X[j][c]) > 25 * S THEN 100 * S
                          ELSE NN!Dist(X[i], X[j], "euclidean", 2)])
  IN [d |-> d, w |-> r.out.rows[q], i |-> i]
RadiusRow(r, x, eps, tol) ==
  \A j \in 1..Len(x.d) :
    LET t == NN!Within(x.d, x.i, j, eps, tol)
        want == FExp(-(FSq(x.d[j]) \div r.out.sigma))
    IN IF t = "no" THEN x.w[j] = 0 ELSE IF t = "tie" THEN TRUE ELSE Close(x.w[j], want, 40)
(* Averaged: an entry is the whole weight, half of it, or nothing.           *)
KnnRow(r, x, k, tol) ==
  \A j \in 1..Len(x.d) :
    LET t == NN!Near(x.d, x.i, j, k, tol)
    IN IF x.w[j] = 0 THEN t # "yes"
       ELSE LET want == FExp(-FDiv(FSq(x.d[j]), r.out.sigma))
            IN \/ Close(x.w[j], want, 20) /\ t # "no"
               \/ Close(x.w[j], want \div 2, 20)
NeighborData(r) ==
  LET X == M2(r.points)  n == Len(X)
      rows == [q \in 1..Len(r.sample) |-> RowOf(r, X, q)]
  IN Clause(r.name \o ": points are the coordinates", r.out.same = "T" /\ r.out.n = n)
     \cup Clause(r.name \o ": undirected, without self-loop",
            r.out.symmetric = "T" /\ \A q \in 1..Len(r.sample) : r.out.rows[q][r.sample[q] + 1] = 0)
     \cup Clause(r.name \o ": weights",
            IF r.name = "Bunny" THEN \A q \in 1..Len(rows) : RadiusRow(r, rows[q], 20 * S, 5)
            ELSE \A q \in 1..Len(rows) : KnnRow(r, rows[q], 5, 3))
     \cup Clause(r.name \o ": labels and width",
            IF r.name = "Bunny" THEN TRUE
            ELSE /\ r.out.sigma = r.sigma
                 /\ r.out.labels = [i \in 1..2000 |-> IF i <= 1000 THEN 0 ELSE 1])

FailC13(r) ==
  IF r.exc # "" THEN {r.kind \o " raised " \o r.exc}
  ELSE IF r.kind = "construct" THEN ConstructFail(r)
  ELSE IF r.kind = "line" THEN LineFail(r)
  ELSE IF r.kind = "data" THEN DataFail(r)
  ELSE IF r.kind = "points" THEN NeighborData(r)
  ELSE {"unknown record"}
=============================================================================
