----------------------------- MODULE TraceBase -----------------------------
(* Checks the records of a trace file, one per step: each record is one call *)
(* (or one bundle of calls on one object) with its inputs and its observed   *)
(* outcome, and Fail(r) is the set of the clauses of the specification that  *)
(* it breaks. Verdicts are total: every record is judged, and reported.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Fail(_)
VARIABLE recno
Recs == JsonDeserialize(IOEnv.VTRACE)
Init == recno = 0
Next ==
  /\ recno < Len(Recs)
  /\ recno' = recno + 1
  /\ LET f == Fail(Recs[recno + 1])
     IN IF f = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([n |-> recno + 1, f |-> f]))
Spec == Init /\ [][Next]_recno
=============================================================================
