------------------------------ MODULE Validity ------------------------------
(* What is refused, with which kinds of errors, and what an accepted call     *)
(* changes of a graph. A graph is                                            *)
(*   n, ne      vertices and edges          directed   "T" or "F"            *)
(*   lap        the type of the Laplacian   cols       cached eigenvectors   *)
(*   dim        of the coordinates: 0 without, 1, 2, 3, and 8 or 9 if        *)
(*              someone assigned too few or many, or no coordinates          *)
(*   sigs       names of the signals        info       communities are known *)
(* A call is [op, t: a name, k: a number, s: a shape or lengths].            *)
EXTENDS Mat, FiniteSets

If(cond, kind) == IF cond THEN {kind} ELSE {}
Types == {"combinatorial", "normalized"}
Layouts == {"line1D", "line2D", "ring2D", "random2D", "random3D", "spring", "community2D"}
DimOf(t) == CASE t = "line1D" -> 1 [] t = "random3D" -> 3 [] OTHER -> 2
Squeeze(s) == SelectSeq(s, LAMBDA x : x # 1)
NF == 2                       \* filters in the bank
BOUND == 5 * S                \* the sum of the squares of its responses

SignalFail(n, s) == If(s[1] # n, "ValueError")
FilterFail(n, t, s) ==
  SignalFail(n, s) \cup If(Len(s) = 3 /\ s[3] \notin {1, NF}, "ValueError")
  \cup If(Len(s) > 3, "ValueError") \cup If(t \notin {"exact", "chebyshev"}, "ValueError")
ItemsFail(n, s, many) ==      \* one value per item
  LET q == Squeeze(s) IN If(q = <<>> /\ n # 1, "ValueError")
     \cup If(q # <<>> /\ q[1] # n, "ValueError") \cup If(Len(q) > 1 /\ ~many, "ValueError")

TooSmall(n, k) ==             \* n k^2 < S^2, exactly
  LET a == k \div 1000  b == k % 1000
      lo == n * (2 * a * b) + ((n * b * b) \div 1000)
  IN n * a * a + (lo \div 1000) < S

Refused(st, c) ==
  LET n == st.n  undirected == st.directed = "F"  combinatorial == st.lap = "combinatorial"
      t == c.t  k == c.k  s == c.s  op == c.op
      Supported(kind) == If(~combinatorial, kind)
      Drawable == If(st.dim \notin 1..3, "AttributeError")
  IN CASE op = "laplacian" -> If(t \notin Types, "ValueError")
       [] op = "estimate" -> If(t \notin {"lanczos", "bounds"}, "ValueError")
       [] op = "fourier" -> IF k > n THEN {"TypeError", "ValueError"} ELSE {}
       [] op = "layout" -> If(t \notin Layouts, "ValueError") \cup If(t = "community2D" /\ st.info = "F", "AttributeError")
       [] op = "coordinates" ->
            LET q == Squeeze(s)
            IN If(q = <<>> \/ q[1] # n \/ Len(q) > 2 \/ (Len(q) = 2 /\ q[2] \notin {2, 3}), "ValueError")
       [] op = "assign" -> {}
       [] op = "signal" -> SignalFail(n, s)
       [] op \in {"gft", "igft", "grad", "energy"} -> SignalFail(n, s)
       [] op = "div" -> If(s[1] # st.ne, "ValueError")
       [] op = "filter" -> FilterFail(n, t, s)
       [] op = "analyze" -> If(Len(s) = 3 /\ s[3] # 1, "ValueError") \cup FilterFail(n, t, s)
       [] op = "synthesize" -> If(Last(s) # NF, "ValueError") \cup FilterFail(n, t, s)
       [] op = "components" -> If(~undirected, "NotImplementedError")
       [] op = "weights" -> {"AttributeError"}
       [] op = "kron" -> Supported("NotImplementedError") \cup If(~undirected, "NotImplementedError")
       [] op = "sparsify" ->          \* k = eps; n eps^2 >= 1
            Supported("NotImplementedError") \cup If(k >= S \/ TooSmall(n, k), "ValueError")
       [] op = "multiresolution" ->
            Supported("NotImplementedError") \cup If(~undirected, "NotImplementedError")
            \cup If(t # "largest_eigenvector" \/ k # 1, "NotImplementedError")
       [] op = "resistance" -> Supported("ValueError")
       [] op = "complement" -> If(k < BOUND, "ValueError")
       [] op = "scales" -> If(s[1] # k - 1, "ValueError")
       [] op \in {"gabor", "modulation"} -> If(k # 1, "ValueError") \cup If(t # "same", "ValueError")
       [] op = "halfcosine" -> If(k <= 2, "ValueError")
       [] op = "wave" -> If(s[1] # s[2] /\ s[1] # 1 /\ s[2] # 1, "ValueError") \cup If(k >= 2 * S, "ValueError")
       [] op = "simplex" -> If(k <= 0, "ValueError")
       [] op = "regression" -> If(s[1] # n, "ValueError")
       [] op = "plot" ->
            Drawable \cup (CASE t = "vertex_color" -> ItemsFail(n, s, st.dim = 1)
                            [] t = "vertex_size" -> ItemsFail(n, s, FALSE)
                            [] t \in {"edge_color", "edge_width"} -> ItemsFail(st.ne, s, FALSE)
                            [] t = "" -> {})
       [] op = "plot on" -> Drawable \cup If(t \notin {"matplotlib"}, "ValueError")
       [] op = "save" -> If(t \notin {"graphml", "gml", "gexf"}, "ValueError")
       [] op = "save with" -> If(t \notin {"networkx"}, "ValueError")
After(st, c) ==
  IF Refused(st, c) # {} THEN st
  ELSE LET op == c.op
       IN CASE op = "laplacian" -> [st EXCEPT !.lap = c.t, !.cols = IF c.t = st.lap THEN @ ELSE 0]
            [] op = "fourier" -> [st EXCEPT !.cols = IF c.k > @ THEN c.k ELSE @]
            [] op \in {"gft", "igft"} -> [st EXCEPT !.cols = IF @ = 0 THEN st.n ELSE @]
            [] op \in {"filter", "analyze", "synthesize"} /\ c.t = "exact" -> [st EXCEPT !.cols = st.n]
            [] op = "layout" -> [st EXCEPT !.dim = DimOf(c.t)]
            [] op = "coordinates" -> [st EXCEPT !.dim = LET q == Squeeze(c.s) IN IF Len(q) = 1 THEN 1 ELSE q[2]]
            [] op = "assign" -> [st EXCEPT !.dim = IF c.s[1] = st.n THEN 9 ELSE 8]
            [] op = "signal" -> [st EXCEPT !.sigs = @ \cup {c.t}]
            [] OTHER -> st
RECURSIVE Run(_, _)
Run(st, h) == IF h = <<>> THEN st ELSE Run(After(st, h[1]), Tail(h))

(* Constructors and functions: what is refused of their arguments. *)
AnyIn(s, P(_)) == \E i \in 1..Len(s) : P(s[i])
AllOnes(s) == s = <<>> \/ \A i \in 1..Len(s) : s[i] = 1
Outside(lohi) == lohi[1] < 0 \/ lohi[2] > S
Declined(c) ==
  LET op == c.op
  IN CASE op = "graph" -> If(Len(c.shape) # 2 \/ c.shape[1] # c.shape[Len(c.shape)], "ValueError")
                          \cup If(c.finite = "F", "ValueError") \cup If(c.lap \notin Types, "ValueError")
       [] op = "ring" -> If(c.n < 3, "ValueError") \cup If(2 * c.k > c.n, "ValueError")
       [] op = "comet" -> If(c.k > c.n - 1, "ValueError")
       [] op = "barabasi" -> If(c.m > c.m0, "ValueError")
       [] op = "regular" -> If((c.n * c.k) % 2 = 1, "ValueError")
       [] op = "random ring" -> If(Len(c.angles) < 3, "ValueError") \cup If(AnyIn(c.angles, LAMBDA a : a < 0 \/ a >= 6283185), "ValueError")
       [] op = "blocks" -> If(~AllOnes(c.p.s) /\ c.p.s # <<c.k>>, "ValueError")
                           \cup If(~AllOnes(c.q.s) /\ c.q.s # <<c.k, c.k>>, "ValueError")
                           \cup If(AnyIn(c.p.v \o c.q.v, LAMBDA a : a < 0 \/ a > S), "ValueError")
                           \cup If(c.hopeless = "T", "ValueError")
       [] op = "blocks matrix" -> If(AnyIn(c.m, LAMBDA a : a < 0 \/ a > S), "ValueError")
       [] op = "erdos" -> If(c.p < 0 \/ c.p > S, "ValueError")
       [] op = "community" ->
            If(c.mindeg = "T", "NotImplementedError") \cup If(c.world < 0 \/ c.world > S, "ValueError")
            \cup If(c.mincomm * c.nc > c.n, "ValueError")
            \cup If(c.sizes # <<>> /\ Len(c.sizes) # c.nc, "ValueError")
            \cup If(c.sizes # <<>> /\ SumSeq(c.sizes) # c.n, "ValueError")
            \cup If(c.density # <<>> /\ (c.density[1] < 0 \/ c.density[1] > S), "ValueError")
            \cup If(c.density = <<>> /\ c.neigh # <<>> /\ c.neigh[1] < 0, "ValueError")
       [] op = "sensor" -> If(c.distributed = "T" /\ ~\E r \in 1..c.n : r * r = c.n, "ValueError")
       [] op = "neighbors" -> If(c.type \notin {"knn", "radius"}, "ValueError")
                              \cup If(c.type = "knn" /\ c.k >= c.n, "ValueError")
                              \cup If(c.type = "radius" /\ c.alone = "T", "ValueError")
       [] op = "sphere" -> If(c.sampling # "random", "ValueError")
       [] op = "cube" -> If(c.sampling # "random", "ValueError") \cup If(c.dim > 3, "NotImplementedError")
       [] op = "moons" -> If(c.type \notin {"standard", "synthesized"}, "ValueError")
       [] op = "cheby coefficients" -> If(c.m < 2, "TypeError")
       [] op = "rectangle" -> If(c.m # 2, "ValueError")
       [] op = "jackson" -> If(c.delta[1] > c.bounds[1] \/ c.delta[2] < c.bounds[2], "ValueError") \cup If(c.delta[1] > c.delta[2], "ValueError")
       [] op = "symmetrize" -> If(c.shape[1] # c.shape[2], "ValueError")
                               \cup If(c.method \notin {"average", "maximum", "fill", "tril", "triu"}, "ValueError")
       [] op = "distances" -> If(c.dims[1] # c.dims[2], "ValueError")
       [] op = "analysis" -> If(c.len # c.n, "ValueError") \cup If(c.filters # 1 /\ c.filters # c.levels, "ValueError")
       [] op = "synthesis" -> If(c.errors # c.levels, "ValueError")
       [] op = "load" -> If(c.fmt \notin {"graphml", "gml", "gexf"}, "ValueError") \cup If(c.backend \notin {"networkx", "graph-tool"}, "ValueError")
                         \cup If(c.exists = "F", "FileNotFoundError")
=============================================================================
