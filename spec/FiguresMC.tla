----------------------------- MODULE FiguresMC -----------------------------
(* All histories of plots, closes and close-alls.                            *)
EXTENDS Figures, TLC, Json
CONSTANTS Depth, MaxFig
VARIABLES st, hist
vars == <<st, hist>>
Init == st = NoFigure /\ hist = <<>>
Do(a, f) == LET s == [a |-> a, f |-> f]
            IN Len(hist) < Depth /\ hist' = Append(hist, s) /\ st' = After(st, s)
Next ==
  \/ st.nfig < MaxFig /\ \E a \in {"plot", "user"} : Do(a, 0)
  \/ \E f \in 1..st.nfig : Do("on", f) \/ (f \in st.open /\ Do("close", f))
  \/ \E a \in {"closeall", "refused"} : Do(a, 0)
  \/ st.open # {} /\ Do("everything", 0)
Spec == Init /\ [][Next]_vars

TrackedAreOurs == st.tracked \subseteq st.ours /\ st.ours \subseteq 1..st.nfig
OursAreTracked == st.ours \cap st.open \subseteq st.tracked
LastWas(a) == hist # <<>> /\ hist[Len(hist)].a = a
AfterCloseAll == LastWas("closeall") => st.open \cap st.ours = {} /\ st.tracked = {}
ClosedTwice == LET t == CloseAll(st) IN CloseAll(t) = t
(* Closing all never closes what someone else created. *)
OthersKept == [][LastWas("closeall")' => st'.open \ st.ours = st.open \ st.ours]_vars
Emit == Len(hist) = Depth => PrintT("F " \o ToJson(hist))
=============================================================================
