----------------------------- MODULE FileStoreMC -----------------------------
(* Explores the store, one history per state, and emits a history for every   *)
(* operation in every state.                                                 *)
EXTENDS FileStore, Json
VARIABLES store, hist
View == store
Init == store = Empty /\ hist = <<>>
Next == \E op \in Ops(store) :
  /\ Answer(store, op) # "foreign"
  /\ store' = Step(store, op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<store, hist>>
Emit == PrintT("F " \o ToJson(hist'))
(* Only saves change the store, and only at their path; loads answer with    *)
(* what was last saved.                                                      *)
LastSave(p) ==
  LET s == {i \in 1..Len(hist) : hist[i].op = "save" /\ hist[i].path = p /\ ~Refused(hist[i])}
  IN IF s = {} THEN <<>> ELSE LET i == CHOOSE i \in s : \A j \in s : j <= i
                              IN <<hist[i].g, Fmt(hist[i]), Library(hist[i].backend)>>
Faithful == \A p \in Paths : store[p] = LastSave(p)
=============================================================================
