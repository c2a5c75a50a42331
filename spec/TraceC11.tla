------------------------------ MODULE TraceC11 ------------------------------
(* Exchange with NetworkX and graph-tool.                                    *)
EXTENDS Exchange, Mat, TraceBase

RoundFail(r) ==
  LET o == r.out
  IN Clause("the export has the vertices, edges, weights and signals of the graph", Exported(r.W, r.sigs, o.x))
     \cup Clause("the import of the export has the same weights", o.W = r.W)
     \cup Clause("the import of the export has the same signals", ToSet(o.sigs) = Join(Break(r.sigs))
                 /\ Len(o.sigs) = Cardinality(Join(Break(r.sigs))))
     \cup Clause("the exported graph is left as it was", o.after.W = r.W /\ ToSet(o.after.sigs) = ToSet(r.sigs))
     \cup Clause("the imported graph is left as it was", o.kept = "T")
     \cup Clause("names and values of plain signals survive", Plain(r.sigs) => ToSet(o.sigs) = ToSet(r.sigs))

(* A graph made in the other library: edges <<i, j, weight, has weight>>.     *)
Weight(r, i, j) ==
  LET hit(e) == \/ e[1] = i /\ e[2] = j
                \/ r.directed = "F" /\ e[1] = j /\ e[2] = i
  IN FoldLeft(LAMBDA acc, e : acc + (IF hit(e) THEN (IF e[4] = 1 THEN e[3] ELSE S) ELSE 0), 0, r.edges)
MISSING == 2147483001
ImportFail(r) ==
  LET n == r.n  o == r.out
  IN Clause("weights are found under the attribute, one where there is none, parallel edges summed",
        IsMat(o.W, [i \in 1..n |-> [j \in 1..n |-> Weight(r, i - 1, j - 1)]], 2))
     \cup Clause("signals are the values of the nodes, not-a-number where missing",
        ToSet(o.sigs) = Join(r.attrs))
     \cup Clause("the imported graph is left as it was", o.kept = "T")

FailC11(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE IF r.kind = "round trip" THEN RoundFail(r)
  ELSE IF r.kind = "import" THEN ImportFail(r)
  ELSE {"unknown record"}
=============================================================================
