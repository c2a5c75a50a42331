----------------------------- MODULE SharingMC -----------------------------
(* A memory in which arrays may be shared (a graph may keep the arrays it was *)
(* given, calls may return arrays of the graph), and dictionaries are         *)
(* written in place. As long as arrays are replaced instead of written, and   *)
(* dictionaries aren't shared, nothing changes but what May permits.          *)
EXTENDS Sharing, Json, TLC
CONSTANTS Depth,
          SharedDict, WrittenArrays   \* faults: TRUE breaks Isolation
VARIABLES val,      \* what the locations of the memory hold
          cells,    \* [kind, of: its graph, at: facet -> location (0: nowhere)]
          hist
vars == <<val, cells, hist>>
Dicts == {"signals", "plotting"}
Names(kind) == {Facets(kind)[i] : i \in 1..Len(Facets(kind))}
New(v) == Append(v, 1)
(* The facets of a new graph: fresh, but for those which are given. *)
Alloc(v, kind, given, dicts) ==
  LET fs == Facets(kind)
      F[i \in 0..Len(fs)] ==
        IF i = 0 THEN [v |-> v, at |-> [f \in {} |-> 0]]
        ELSE LET p == F[i - 1] f == fs[i]
             IN IF f \in Spectral THEN [p EXCEPT !.at = @ @@ (f :> 0)]
                ELSE IF f \in {"weights", "coords"} /\ given # 0 THEN [p EXCEPT !.at = @ @@ (f :> given)]
                ELSE IF f \in Dicts /\ dicts # 0 /\ SharedDict THEN [p EXCEPT !.at = @ @@ (f :> cells[dicts].at[f])]
                ELSE [v |-> New(p.v), at |-> p.at @@ (f :> Len(p.v) + 1)]
  IN F[Len(fs)]
Add(kind, of, given, dicts, v) ==
  LET a == Alloc(v, kind, given, dicts)
  IN val' = a.v /\ cells' = Append(cells, [kind |-> kind, of |-> of, at |-> a.at])
Set(c, fs, v, ix) ==          \* facets fs of c are replaced
  LET F[i \in 0..Len(fs)] ==
        IF i = 0 THEN [v |-> v, at |-> cells[c].at]
        ELSE LET p == F[i - 1] f == fs[i]
             IN IF WrittenArrays /\ p.at[f] # 0
                THEN [p EXCEPT !.v = [p.v EXCEPT ![p.at[f]] = @ + 1]]
                ELSE [v |-> New(p.v), at |-> [p.at EXCEPT ![f] = Len(p.v) + 1]]
  IN F[Len(fs)]
Replace(c, fs) ==
  LET a == Set(c, fs, val, 0)
  IN val' = a.v /\ cells' = [cells EXCEPT ![c].at = a.at]
Edit(c, f) ==                 \* the dictionary is written
  val' = [val EXCEPT ![cells[c].at[f]] = @ + 1] /\ UNCHANGED cells
Fill(c) ==
  LET missing == SelectSeq(<<"lmax", "basis">>, LAMBDA f : cells[c].at[f] = 0)
  IN Replace(c, missing)
Graphs == {i \in 1..Len(cells) : cells[i].kind = "graph"}
Givens == {i \in 1..Len(cells) : cells[i].kind = "given"}
Arrays(c) == {f \in Names("graph") \ Dicts : cells[c].at[f] # 0}
Op(op, on) == [op |-> op, on |-> on]
Call(c) ==
  CASE c.op = "new" -> Add("graph", 0, IF Givens = {} THEN 0 ELSE cells[CHOOSE i \in Givens : TRUE].at.value, 0, val)
    [] c.op = "given" -> Add("given", 0, 0, 0, val)
    [] c.op = "derive" -> Add("graph", 0, 0, c.on, val)
    [] c.op = "filter" -> Add("filter", c.on, 0, 0, val)
    [] c.op = "result" ->     \* an array of the graph is returned
         \E f \in Arrays(c.on) : val' = val /\ cells' = Append(cells, [kind |-> "result", of |-> 0, at |-> [value |-> cells[c.on].at[f]]])
    [] c.op = "layout" ->     \* may keep the given array
         \/ Replace(c.on, <<"coords">>)
         \/ \E g \in Givens : val' = val /\ cells' = [cells EXCEPT ![c.on].at.coords = cells[g].at.value]
    [] c.op \in {"signal", "edit signals"} -> Edit(c.on, "signals")
    [] c.op = "edit plotting" -> Edit(c.on, "plotting")
    [] c.op = "laplacian" ->
         val' = Append(Append(val, 1), 1) /\ cells' = [cells EXCEPT ![c.on].at.laplacian = Len(val) + 1, ![c.on].at.attributes = Len(val) + 2,
                                         ![c.on].at.lmax = 0, ![c.on].at.basis = 0, ![c.on].at.incidence = 0]
    [] c.op = "estimate" -> Replace(c.on, <<"lmax">>)
    [] c.op = "fourier" -> Replace(c.on, <<"lmax", "basis">>)
    [] c.op = "incidence" -> Replace(c.on, <<"incidence">>)
    [] c.op = "multiresolution" -> Replace(c.on, <<"attributes">>)
    [] c.op = "read" -> Fill(c.on)
Ops == {Op(op, 0) : op \in {"new", "given"}}
  \cup {Op(op, g) : g \in Graphs, op \in {"derive", "filter", "result", "layout", "signal", "edit signals", "edit plotting", "laplacian",
                                      "estimate", "fourier", "incidence", "multiresolution", "read"}}
Init ==
  /\ val = [i \in 1..12 |-> 1]
  /\ cells = [c \in 1..2 |-> [kind |-> "graph", of |-> 0, at |-> [f \in Names("graph") |->
       CASE f \in Spectral -> 0
         [] OTHER -> (6 * (c - 1)) + (CHOOSE i \in 1..6 : <<"weights", "laplacian", "signals", "coords", "plotting", "attributes">>[i] = f)]]]
  /\ hist = <<>>
Next == Len(hist) < Depth /\ \E c \in Ops : Call(c) /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars

See(v, cs, c, f) == IF cs[c].at[f] = 0 THEN 0 ELSE (1000 * cs[c].at[f]) + v[cs[c].at[f]]
SeenValue(v, cs, c, f) == IF cs[c].at[f] = 0 THEN 0 ELSE v[cs[c].at[f]]
(* Replacing an array by another is a change of what is seen, unless it is    *)
(* the same location with the same content.                                  *)
Isolated ==
  \A c \in 1..Len(cells) : \A f \in DOMAIN cells[c].at :
    LET call == hist'[Len(hist')]
        stale == cells[c].kind = "filter" /\ cells[c].of = call.on
    IN \/ See(val', cells', c, f) = See(val, cells, c, f)
       \/ May(cells[c].kind, f, call.op, FALSE, call.on = c, call.on = c, See(val, cells, c, f), stale)
Isolation == [][Isolated]_vars
(* Without faults, no location is written which two cells see.               *)
Exclusive == (~SharedDict /\ ~WrittenArrays) =>
  \A c, d \in 1..Len(cells) : c # d =>
     \A f \in DOMAIN cells[c].at \cap Dicts : \A g \in DOMAIN cells[d].at : cells[c].at[f] # cells[d].at[g]
Emit == Len(hist) = Depth => PrintT("H " \o ToJson(hist))
=============================================================================
