------------------------------ MODULE TraceC22 ------------------------------
(* Refusals. A graph goes through a history of calls, valid or not; every     *)
(* call was observed: [c, exc, before, after, ...].                          *)
EXTENDS Validity, TraceBase

Rng(s) == {s[i] : i \in 1..Len(s)}
Known(st) == [st EXCEPT !.sigs = Rng(@)]
Verdict(ref, exc) ==
  IF ref = {} THEN Clause("a documented input is accepted", exc = "")
  ELSE Clause("refused with the documented kind of error", exc \in ref)
Untouched(o) ==
  Clause("a refused call leaves no trace on the graph",
     o.before = o.after /\ (WF(o.lmaxb) => WF(o.lmaxa) /\ Close(o.lmaxb, o.lmaxa, 2)))
Looks(st, o) ==
  Clause("what the graph became",
     /\ o.lap = st.lap /\ o.dim = st.dim /\ Rng(o.sigs) = st.sigs
     /\ o.cols = IF st.cols = 0 THEN st.n ELSE st.cols)
StepFail(st, o) ==
  LET ref == Refused(st, o.c)
  IN Verdict(ref, o.exc) \cup Looks(After(st, o.c), o)
     \cup (IF ref # {} THEN Untouched(o) ELSE {})
TriesFail(r) ==               \* every call is tried in the same state
  LET st == Run(Known(r.start), r.hist)
  IN UNION {StepFail(st, r.out.tries[i]) : i \in 1..Len(r.out.tries)}
RECURSIVE WalkFail(_, _)
WalkFail(st, os) == IF os = <<>> THEN {} ELSE StepFail(st, os[1]) \cup WalkFail(After(st, os[1].c), Tail(os))
TwinFail(r) ==
  Clause("as if the refused calls hadn't been made", r.out.final = r.out.twin
     /\ (WF(r.out.lmax) /\ WF(r.out.lmaxtwin) => Close(r.out.lmax, r.out.lmaxtwin, r.out.lmax \div 20)))
DomainFail(r) ==
  Verdict(Declined(r.c), r.out.exc) \cup Clause("arguments and files are left alone", r.out.kept = "T")
FailC22(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE CASE r.kind = "tries" -> TriesFail(r)
         [] r.kind = "walk" -> WalkFail(Known(r.start), r.out.steps) \cup TwinFail(r)
         [] r.kind = "domain" -> DomainFail(r)
         [] OTHER -> {"unknown record"}
=============================================================================
