---------------------------- MODULE Constructors ----------------------------
(* The graphs the deterministic constructors build: edges and coordinates as *)
(* functions of the parameters. Vertices are numbered from 0.                *)
EXTENDS GraphCore

PathE(n) == {<<i, i + 1>> : i \in 0..(n - 2)}
RingE(n, k) == UNION {{<<i, (i + j) % n>> : i \in 0..(n - 1)} : j \in 1..k}
CometE(n, k) == {<<0, i>> : i \in 1..k} \cup {<<i, i + 1>> : i \in k..(n - 2)}
StarE(n) == {<<0, i>> : i \in 1..(n - 1)}
FullE(n) == {<<p[1], p[2]>> : p \in {q \in (0..(n - 1)) \X (0..(n - 1)) : q[1] < q[2]}}
(* n1 rows of n2 vertices. *)
GridE(n1, n2) ==
  {<<r * n2 + c, r * n2 + c + 1>> : r \in 0..(n1 - 1), c \in 0..(n2 - 2)}
  \cup {<<r * n2 + c, (r + 1) * n2 + c>> : r \in 0..(n1 - 2), c \in 0..(n2 - 1)}
DiagE(n1, n2) ==
  {<<r * n2 + c, (r + 1) * n2 + c + 1>> : r \in 0..(n1 - 2), c \in 0..(n2 - 2)}
  \cup {<<r * n2 + c + 1, (r + 1) * n2 + c>> : r \in 0..(n1 - 2), c \in 0..(n2 - 2)}
(* m rings of n vertices, the vertices of the same rank making rings too.    *)
TorusE(n, m) ==
  {<<i * n + a, i * n + ((a + 1) % n)>> : i \in 0..(m - 1), a \in 0..(n - 1)}
  \cup {<<i * n + a, ((i + 1) % m) * n + a>> : i \in 0..(m - 1), a \in 0..(n - 1)}

(* The low stretch tree on a square of 2^k points a side is made of four     *)
(* trees of half that side, numbered one after the other (lower left, lower  *)
(* right, upper left, upper right), with edges between the corners at the    *)
(* center of the square.                                                     *)
RECURSIVE Pow4(_)
Pow4(p) == IF p = 0 THEN 1 ELSE 4 * Pow4(p - 1)
RECURSIVE TreeCoord(_, _)     \* position of a vertex, from 0
TreeCoord(v, k) ==
  IF k = 0 THEN <<0, 0>>
  ELSE LET q == v \div Pow4(k - 1)  c == TreeCoord(v % Pow4(k - 1), k - 1)
       IN <<c[1] + (q % 2) * Pow2(k - 1), c[2] + (q \div 2) * Pow2(k - 1)>>
Corner(k, x, y) ==            \* x, y: 0 or 1 for the low or high end
  FoldLeft(LAMBDA acc, p : 4 * acc + x + 2 * y, 0, [i \in 1..k |-> i])
RECURSIVE TreeE(_)
TreeE(k) ==
  IF k = 0 THEN {}
  ELSE LET b == Pow4(k - 1)
           ll == Corner(k - 1, 1, 1)
           lr == b + Corner(k - 1, 0, 1)
           ul == 2 * b + Corner(k - 1, 1, 0)
           ur == 3 * b + Corner(k - 1, 0, 0)
       IN UNION {{<<e[1] + q * b, e[2] + q * b>> : e \in TreeE(k - 1)} : q \in 0..3}
          \cup {<<ll, lr>>, <<ll, ul>>, <<ul, ur>>}

(* The line graph, given the edges in order (as pairs): two vertices are     *)
(* linked if their edges share an end.                                       *)
Shares(e, f) == {e[1], e[2]} \cap {f[1], f[2]} # {}
LineW(es) ==
  TLCEval([i \in 1..Len(es) |-> [j \in 1..Len(es) |->
    IF i # j /\ Shares(es[i], es[j]) THEN S ELSE 0]])

(* The weight matrix with the given weight on the edges.                     *)
FromE(n, E, w) ==
  TLCEval([i \in 1..n |-> [j \in 1..n |->
    IF <<i - 1, j - 1>> \in E \/ <<j - 1, i - 1>> \in E THEN w ELSE 0]])
FromArcs(n, E, w) ==
  TLCEval([i \in 1..n |-> [j \in 1..n |-> IF <<i - 1, j - 1>> \in E THEN w ELSE 0]])
Sum2(A, B) == TLCEval([i \in 1..Len(A) |-> Add(A[i], B[i])])

(* Expected weights of constructor c with integer parameters p and a weight. *)
Size(c, p) ==
  CASE c \in {"Path", "DirectedPath", "Ring", "Comet", "Star", "FullConnected"} -> p[1]
    [] c \in {"Grid2d", "Torus"} -> p[1] * p[2]
    [] c = "LowStretchTree" -> Pow4(p[1])
Weights(c, p, w) ==
  LET n == Size(c, p)
  IN CASE c = "Path" -> FromE(n, PathE(n), S)
       [] c = "DirectedPath" -> FromArcs(n, PathE(n), S)
       [] c = "Ring" -> FromE(n, RingE(n, p[2]), S)
       [] c = "Comet" -> FromE(n, CometE(n, p[2]), S)
       [] c = "Star" -> FromE(n, StarE(n), S)
       [] c = "FullConnected" -> FromE(n, FullE(n), S)
       [] c = "Grid2d" -> Sum2(FromE(n, GridE(p[1], p[2]), S), FromE(n, DiagE(p[1], p[2]), w))
       [] c = "Torus" -> FromE(n, TorusE(p[1], p[2]), S)
       [] c = "LowStretchTree" -> FromE(n, TreeE(p[1]), S)

Turn(i, n) == ((PI2 \div n) * i) + ((PI2 % n) * i) \div n      \* 2 pi i / n
OnCircle(i, n) == <<FCos(Turn(i, n)), FSin(Turn(i, n))>>
Coords(c, p) ==
  LET n == Size(c, p)
  IN CASE c \in {"Path", "DirectedPath"} -> [i \in 1..n |-> <<(i - 1) * S, 0>>]
       [] c = "Ring" -> [i \in 1..n |-> OnCircle(i - 1, n)]
       [] c \in {"Comet", "Star"} ->
            LET k == IF c = "Star" THEN n - 1 ELSE p[2]
            IN [i \in 1..n |-> IF i = 1 THEN <<0, 0>>
                               ELSE IF i - 1 <= k THEN OnCircle(i - 1, k) ELSE <<(i - k) * S, 0>>]
       [] c = "Grid2d" ->
            [i \in 1..n |-> <<(((i - 1) % p[2]) * S) \div p[2],
                              ((p[1] - 1 - ((i - 1) \div p[2])) * S) \div p[1]>>]
       [] c = "Torus" ->
            [i \in 1..n |-> LET a == OnCircle((i - 1) % p[1], p[1])
                                b == OnCircle((i - 1) \div p[1], p[2])
                                t == S + HALF + b[2]
                            IN <<FMul(a[1], t), FMul(a[2], t), b[1]>>]
       [] c = "LowStretchTree" ->
            [i \in 1..n |-> LET x == TreeCoord(i - 1, p[1]) IN <<(x[1] + 1) * S, (x[2] + 1) * S>>]
=============================================================================
