------------------------------ MODULE Sharing ------------------------------
(* Who may change what. The world is a sequence of cells: graphs, filters,    *)
(* what was given to calls, what calls returned, and what everything shares   *)
(* (default arguments, settings). A cell has facets. A call may change some   *)
(* facets of the graph it is made on, and compute (or refine) the spectral    *)
(* facets of the graphs it involves. It changes nothing else of any cell.     *)
EXTENDS Integers, Sequences, FiniteSets

Facets(kind) ==
  CASE kind = "graph" -> <<"weights", "laplacian", "lmax", "basis", "incidence", "signals", "coords", "plotting", "attributes">>
    [] kind = "filter" -> <<"responses", "parameters">>
    [] OTHER -> <<"value">>   \* "given", "result", "shared"
Spectral == {"lmax", "basis", "incidence"}

(* What a call is there to change, of the graph it is made on. *)
Sets(op) ==
  CASE op = "laplacian" -> {"laplacian", "lmax", "basis", "incidence", "attributes"}
    [] op = "estimate" -> {"lmax"}
    [] op = "fourier" -> {"lmax", "basis"}
    [] op = "incidence" -> {"incidence"}
    [] op = "layout" -> {"coords"}
    [] op = "eigenmap" -> {"coords", "lmax", "basis"}
    [] op = "communities" -> {"coords", "attributes"}
    [] op = "signal" -> {"signals"}
    [] op = "edit signals" -> {"signals"}
    [] op = "edit plotting" -> {"plotting"}
    [] op = "multiresolution" -> {"attributes"}
    [] op = "spectrogram" -> {"attributes"}
    [] OTHER -> {}            \* "read", "new", "derive", "filter", "use": reads

(* May a facet of a cell change? on: the call is made on it. involved: the    *)
(* cell is a graph the call has to do with. was: 0 if not computed so far.    *)
(* full: the call may need the full Fourier basis, thus the exact lmax.       *)
May(kind, facet, op, full, on, involved, was, stale) ==
  \/ kind = "graph" /\ on /\ facet \in Sets(op)
  \/ kind = "graph" /\ involved /\ facet \in Spectral /\ was = 0
  \/ kind = "graph" /\ involved /\ facet \in {"lmax", "basis"} /\ full
  \/ kind = "filter" /\ facet = "responses" /\ stale     \* the spectrum of its graph changed
=============================================================================
