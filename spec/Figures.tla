------------------------------ MODULE Figures ------------------------------
(* The figures which are open, who created them, and which the package       *)
(* keeps track of in order to close them. A state has                        *)
(*   nfig     figures created so far, numbered 1, 2, ...                     *)
(*   open     the ones which are open                                        *)
(*   ours     the ones created by the package                                *)
(*   tracked  the ones the package will close                                *)
EXTENDS Integers, Sequences, FiniteSets

NoFigure == [nfig |-> 0, open |-> {}, ours |-> {}, tracked |-> {}]
Created(st, ours) ==
  LET k == st.nfig + 1
  IN [nfig |-> k, open |-> st.open \cup {k},
      ours |-> IF ours THEN st.ours \cup {k} ELSE st.ours,
      tracked |-> IF ours THEN st.tracked \cup {k} ELSE st.tracked]
CloseAll(st) == [st EXCEPT !.open = @ \ st.tracked, !.tracked = {}]
(* A step [a: action, f: figure]. *)
After(st, s) ==
  CASE s.a = "plot" -> Created(st, TRUE)            \* a plot on a new figure
    [] s.a = "user" -> Created(st, FALSE)           \* a figure of someone else
    [] s.a = "on" -> st                             \* a plot on the axes of a figure
    [] s.a = "close" -> [st EXCEPT !.open = @ \ {s.f}]
    [] s.a = "everything" -> [st EXCEPT !.open = {}]
    [] s.a = "closeall" -> CloseAll(st)
    [] s.a = "refused" -> st                        \* an invalid plot
RECURSIVE States(_, _)
(* The states after every step. *)
States(st, h) == IF h = <<>> THEN <<>> ELSE LET t == After(st, h[1]) IN <<t>> \o States(t, Tail(h))
=============================================================================
