--------------------------- MODULE SpectralCache ---------------------------
(* The spectral state of a graph: which Laplacian is in force, and what is    *)
(* memoized. Every memoized quantity carries the Laplacian it was computed    *)
(* from. Step gives the states in which each public call may leave a graph.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS FULL,       \* size of a full basis
          PARTIAL     \* sizes of partial bases

Types == {"combinatorial", "normalized"}
Methods == {"lanczos", "bounds"}
None == [of |-> "none"]
NoBasis == [of |-> "none", size |-> 0]
NoLmax == [of |-> "none", src |-> "none"]
Fresh(t) == [lap |-> t, lmax |-> NoLmax, basis |-> NoBasis, D |-> "none"]

(* ------------------------------ transitions ------------------------------ *)
SetLaplacian(s, t) == IF t = s.lap THEN s ELSE Fresh(t)
Estimate(s, m) == [s EXCEPT !.lmax = [of |-> s.lap, src |-> m]]
NeedLmax(s) == IF s.lmax.of = "none" THEN Estimate(s, "lanczos") ELSE s
(* A basis at least as large is kept. A full basis gives the largest         *)
(* eigenvalue too.                                                           *)
Fourier(s, k) ==
  IF s.basis.of # "none" /\ k <= s.basis.size THEN s
  ELSE LET t == [s EXCEPT !.basis = [of |-> s.lap, size |-> k]]
       IN IF k = FULL THEN Estimate(t, "fourier") ELSE t
(* Asking again for a full basis may or may not reinstate its eigenvalue.    *)
FourierSet(s, k) ==
  IF k = FULL /\ s.basis.size = FULL THEN {s, Estimate(s, "fourier")} ELSE {Fourier(s, k)}
NeedBasis(s) == IF s.basis.of = "none" THEN Fourier(s, FULL) ELSE s
NeedD(s) == [s EXCEPT !.D = s.lap]

Ops ==
  [op : {"laplacian"}, arg : Types] \cup
  [op : {"estimate"}, arg : Methods] \cup
  [op : {"fourier"}, arg : PARTIAL \cup {FULL}] \cup
  [op : {"bad laplacian", "bad estimate", "bad fourier", "bad filter", "bad signal",
         "diff", "lmax", "basis", "coherence", "D", "L", "grad", "gft",
         "exact", "cheby", "frame bounds", "eigenmap", "neutral", "copy"}, arg : {""}]

Step(s, o) ==
  CASE o.op = "laplacian"    -> {SetLaplacian(s, o.arg)}
    [] o.op = "estimate"     -> {Estimate(s, o.arg)}
    [] o.op = "fourier"      -> FourierSet(s, o.arg)
    [] o.op \in {"diff", "D", "grad"} -> {NeedD(s)}
    [] o.op \in {"lmax", "cheby", "frame bounds"} -> {NeedLmax(s)}
    [] o.op = "basis"        -> {NeedBasis(s)}
    [] o.op = "gft"          -> {NeedBasis(s)}
    [] o.op = "coherence"    -> IF s.basis.size = FULL THEN {s} ELSE FourierSet(s, FULL)
    [] o.op = "exact"        -> FourierSet(s, FULL)
    [] o.op = "eigenmap"     -> {Fourier(s, 3)} \cup FourierSet(s, FULL)
    [] OTHER                 -> {s}      \* failed calls, other reads, neutral calls

(* ------------------------------ the machine ------------------------------ *)
VARIABLES st, hist     \* the state of the graph, and how it was reached
vars == <<st, hist>>
Init == /\ st \in {Fresh(t) : t \in Types}
        /\ hist = <<[op |-> "new", arg |-> st.lap]>>
Do(o) == /\ st' \in Step(st, o)
         /\ hist' = Append(hist, o)
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

(* Everything memoized belongs to the Laplacian in force. *)
Coherent ==
  /\ st.basis.of \in {"none", st.lap}
  /\ st.lmax.of \in {"none", st.lap}
  /\ st.D \in {"none", st.lap}
(* The largest eigenvalue comes from the Fourier basis only if there is one. *)
FourierSource == st.lmax.src = "fourier" => st.basis.size = FULL
(* A basis only grows, but for a change of Laplacian. *)
BasisGrows == [][st'.lap = st.lap => st'.basis.size >= st.basis.size]_vars
(* Reading twice gives the same state as reading once. *)
ReadsIdempotent ==
  \A o \in {x \in Ops : x.op \in {"lmax", "basis", "D", "L", "grad", "gft", "cheby"}} :
     \A s \in Step(st, o) : Step(s, o) = {s}
(* Switching back and forth is the same as starting afresh. *)
SwitchForgets ==
  \A t \in Types \ {st.lap} :
    Step(st, [op |-> "laplacian", arg |-> t]) = {Fresh(t)}
=============================================================================
