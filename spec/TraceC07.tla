------------------------------ MODULE TraceC07 ------------------------------
(* Connectivity, components and subgraphs.                                   *)
EXTENDS GraphCore, TraceBase

Select(W, sel) == TLCEval([i \in 1..Len(sel) |-> [j \in 1..Len(sel) |-> W[sel[i] + 1][sel[j] + 1]]])
SelRows(a, sel) == \* rows sel of a recorded array (1-D or 2-D)
  IF Len(a.s) = 1 THEN [s |-> <<Len(sel)>>, v |-> [i \in 1..Len(sel) |-> a.v[sel[i] + 1]]]
  ELSE LET m == a.s[2]
       IN [s |-> <<Len(sel), m>>,
           v |-> [k \in 1..(Len(sel) * m) |-> a.v[sel[((k - 1) \div m) + 1] * m + ((k - 1) % m) + 1]]]

(* g: what is recorded of a subgraph; r: the original; sel: 0-based vertices. *)
SubFail(r, W, g, sel) ==
  LET n == Len(sel)
  IN Clause("weights of the subgraph", IsMat(g.W, Select(W, sel), 2))
     \cup Clause("size of the subgraph", g.n = n /\ g.N = n)
     \cup Clause("Laplacian type of the subgraph",
            g.lt = r.lt /\ IsMat(g.L, Lap(Select(W, sel), r.lt), 30))
     \cup Clause("coordinates of the subgraph",
            IF r.hascoords THEN g.coords = SelRows(r.coords, sel) ELSE g.coords.s = <<-1>>)
     \cup Clause("signals of the subgraph",
            /\ DOMAIN g.signals = DOMAIN r.signals
            /\ \A name \in DOMAIN r.signals : g.signals[name] = SelRows(r.signals[name], sel))
     \cup Clause("plotting attributes of the subgraph", g.plotting = "T")
     \cup LET V == Select(W, sel)
          IN Clause("connectivity of the subgraph", g.conn = IF Connected(V) THEN "T" ELSE "F")
             \cup Clause("edges and degrees of the subgraph",
                    /\ g.dir = (IF Directed(V) THEN "T" ELSE "F") /\ g.ne = NEdges(V) /\ g.cols = NEdges(V)
                    /\ IsVec(g.dw, WDegree(V), 2 * n))
             \cup Clause("spectrum of the subgraph", g.lmax = "T")

CompFail(r, W, comps) ==
  LET sets == [k \in DOMAIN comps |-> {comps[k].orig[i] : i \in DOMAIN comps[k].orig}]
      want == {{i - 1 : i \in C} : C \in Components(W)}
  IN Clause("components partition the vertices into the maximal connected sets",
        /\ {sets[k] : k \in DOMAIN comps} = want
        /\ Len(comps) = Cardinality(want)
        /\ \A k \in DOMAIN comps : Len(comps[k].orig) = Cardinality(sets[k]))
     \cup (IF \A k \in DOMAIN comps : sets[k] \in want
           THEN UNION {SubFail(r, W, comps[k].g, comps[k].orig) : k \in DOMAIN comps} ELSE {})

FailC07(r) ==
  LET W == M2(r.W)  dir == Directed(W)
  IN IF r.exc # "" THEN {"raised " \o r.exc}
     ELSE IF r.kind = "connected"
     THEN Clause("connectivity",
            \A k \in DOMAIN r.out.answers :
               r.out.answers[k] = IF Connected(W) THEN "T" ELSE "F")
     ELSE IF r.kind = "components"
     THEN IF dir THEN Clause("components of directed graphs are refused", r.out.refused = "NotImplementedError")
          ELSE Clause("components of undirected graphs are extracted", r.out.refused = "")
               \cup CompFail(r, W, r.out.comps)
     ELSE IF r.kind = "subgraph" THEN SubFail(r, W, r.out.g, r.sel)
     ELSE {"unknown record"}
=============================================================================
