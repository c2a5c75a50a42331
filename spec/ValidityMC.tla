----------------------------- MODULE ValidityMC -----------------------------
(* Every call, valid or not, in every state of a graph; every pair of a       *)
(* refused call and what follows. The histories are replayed on the code.     *)
EXTENDS Validity, Json, TLC
CONSTANTS N, NE, Directed, MaxSigs
VARIABLES st, hist
vars == <<st, hist>>
C(op, t, k, s) == [op |-> op, t |-> t, k |-> k, s |-> s]
Names == {"a", "b"}
Valid == {C("laplacian", t, 0, <<>>) : t \in Types}
     \cup {C("fourier", "", N, <<>>)}
     \cup {C("layout", t, 0, <<>>) : t \in {"line1D", "ring2D", "random3D"}} \cup {C("assign", "", 0, s) : s \in {<<N, 4>>, <<N + 1, 2>>}}
     \cup {C("signal", t, 0, <<N>>) : t \in Names}
Shapes == {<<N>>, <<N + 1>>, <<N - 1>>, <<1>>, <<N, 2>>, <<N, 3>>, <<2, N>>, <<N, 2, 2>>, <<N, 2, 3>>, <<N, 1, 1>>, <<N, 1, 1, 1>>, <<N, 1, 1, 2>>, <<N, 1, 1, 5>>}
Tried ==
  {C("laplacian", t, 0, <<>>) : t \in Types \cup {"Normalized", "unknown", ""}}
  \cup {C("estimate", t, 0, <<>>) : t \in {"lanczos", "bounds", "Lanczos", "unknown"}}
  \cup {C("fourier", "", k, <<>>) : k \in {N, N + 1, N + 4}}
  \cup {C("layout", t, 0, <<>>) : t \in Layouts \cup {"unknown", "ring", "line2d"}}
  \cup {C("coordinates", "", 0, s) : s \in {<<N>>, <<N, 2>>, <<N, 3>>, <<N, 1>>, <<1, N>>, <<N, 4>>, <<N - 1, 2>>, <<N + 1>>, <<2, N>>, <<N, 2, 2>>}}
  \cup {C("signal", t, 0, s) : t \in Names, s \in {<<N>>, <<N + 1>>, <<N, 2>>, <<1, N>>}}
  \cup {C(op, "", 0, s) : op \in {"gft", "igft", "grad"}, s \in {<<N>>, <<N - 1>>, <<N, 2>>, <<N + 1, 2>>}}
  \cup {C("energy", "", 0, s) : s \in {<<N>>, <<N - 1>>, <<2>>}}
  \cup {C("div", "", 0, s) : s \in {<<NE>>, <<NE + 1>>, <<NE - 1, 2>>, <<1>>}}
  \cup {C("filter", t, 0, s) : t \in {"exact", "chebyshev", "unknown"}, s \in Shapes}
  \cup {C("analyze", t, 0, s) : t \in {"exact", "chebyshev"}, s \in Shapes}
  \cup {C("synthesize", t, 0, s) : t \in {"exact", "chebyshev"}, s \in Shapes}
  \cup {C(op, "", 0, <<>>) : op \in {"components", "weights", "kron", "resistance"}}
  \cup {C("sparsify", "", k, <<>>) : k \in {0, 249999, 250000, 390000, 400000, 420000, 999999, S, 2 * S}}
  \cup {C("multiresolution", t, k, <<>>) : t \in {"largest_eigenvector", "unknown"}, k \in {0, 1}}
  \cup {C("complement", "", k, <<>>) : k \in {4 * S, BOUND - 1, BOUND, 6 * S}}
  \cup {C("scales", t, k, <<k + d - 2>>) : t \in {"MexicanHat", "Meyer", "SimpleTight"}, k \in {2, 4}, d \in {0, 1, 2}}
  \cup {C(op, t, k, <<>>) : op \in {"gabor", "modulation"}, t \in {"same", "other"}, k \in {1, 2}}
  \cup {C("halfcosine", "", k, <<>>) : k \in 1..4}
  \cup {C("wave", "", k, s) : k \in {S, 2 * S, 3 * S}, s \in {<<1, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>>}}
  \cup {C("simplex", "", k, <<>>) : k \in {0 - S, 0, S}}
  \cup {C("regression", "", 0, s) : s \in {<<N>>, <<N - 1>>, <<N + 1>>}}
  \cup {C("plot", t, 0, s) : t \in {"vertex_color", "vertex_size"}, s \in {<<N>>, <<N + 1>>, <<N - 1>>, <<N, 2>>, <<N, 1>>, <<2, N>>}}
  \cup {C("plot", t, 0, s) : t \in {"edge_color", "edge_width"}, s \in {<<NE>>, <<NE + 1>>, <<NE, 2>>, <<2>>}}
  \cup {C("plot", "", 0, <<>>)}
  \cup {C("plot on", t, 0, <<>>) : t \in {"matplotlib", "unknown", "Matplotlib"}}
  \cup {C("save", t, 0, <<>>) : t \in {"graphml", "gml", "gexf", "unknown", "txt"}}
  \cup {C("save with", t, 0, <<>>) : t \in {"networkx", "unknown", "NetworkX"}}
Start == {[n |-> N, ne |-> NE, directed |-> Directed, lap |-> t, cols |-> 0, dim |-> 0, sigs |-> {}, info |-> i] : t \in Types, i \in {"T", "F"}}
Init == st \in Start /\ hist = <<[start |-> st]>>
Next == \E c \in Valid :
          /\ After(st, c) # st /\ Cardinality(After(st, c).sigs) <= MaxSigs
          /\ st' = After(st, c) /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars
View == st

TypeOK == /\ st.lap \in Types /\ st.cols \in {0, N} /\ st.dim \in {0, 1, 2, 3, 8, 9} /\ st.sigs \subseteq Names
(* A refused call is a stuttering step, and a call is either refused or not   *)
(* whatever was refused before.                                              *)
RefusedStutters == \A c \in Tried : Refused(st, c) # {} => After(st, c) = st
Independent == \A c \in Tried : Refused(st, c) # {} =>
  \A d \in Valid : Run(st, <<c, d>>) = Run(st, <<d>>)
(* No call is always refused, but the assignment of weights.                 *)
Kinds == \A c \in Tried : Refused(st, c) \subseteq {"ValueError", "TypeError", "AttributeError", "NotImplementedError"}
Emit == PrintT("H " \o ToJson(hist))
EmitCalls == (st.cols = 0 /\ st.dim = 0 /\ st.sigs = {} /\ st.lap = "combinatorial" /\ st.info = "T") => PrintT("T " \o ToJson(Tried))
=============================================================================
