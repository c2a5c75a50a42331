------------------------------ MODULE FileStore ------------------------------
(* Graphs saved to and loaded from files: the state is what each path holds.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Paths, Graphs, Formats, Backends     \* "" stands for the default
Supported == {"graphml", "gml", "gexf"}
Ext(p) == LET dots == {i \in 1..Len(p) : SubSeq(p, i, i) = "."}
          IN IF dots = {} THEN "" ELSE SubSeq(p, (CHOOSE i \in dots : \A j \in dots : j <= i) + 1, Len(p))
Fmt(op) == IF op.fmt = "" THEN Ext(op.path) ELSE op.fmt
Library(b) == IF b = "" THEN "networkx" ELSE b
Known == {"networkx", "graph-tool"}
Refused(op) ==
  \/ Fmt(op) \notin Supported
  \/ Library(op.backend) \notin Known
  \/ Fmt(op) = "gexf" /\ Library(op.backend) = "graph-tool"
Empty == [p \in Paths |-> <<>>]
(* The store after an operation.                                             *)
Step(store, op) ==
  IF op.op = "save" /\ ~Refused(op)
  THEN [store EXCEPT ![op.path] = <<op.g, Fmt(op), Library(op.backend)>>]
  ELSE store
(* What an operation answers: "error", or the index of the graph loaded. A    *)
(* file loads with the format and the library it was saved with.             *)
Answer(store, op) ==
  IF Refused(op) THEN "ValueError"
  ELSE IF op.op = "save" THEN "saved"
  ELSE IF store[op.path] = <<>> THEN "missing"
  ELSE IF store[op.path][2] = Fmt(op) /\ store[op.path][3] = Library(op.backend) THEN "loaded"
  ELSE "foreign"                  \* nothing is promised
Rounded(content) == content[2] = "gml" /\ content[3] = "graph-tool"
Ops(store) ==
  {[op |-> "save", g |-> g, path |-> p, fmt |-> f, backend |-> b] :
     g \in Graphs, p \in Paths, f \in Formats, b \in Backends}
  \cup {[op |-> "load", g |-> 0, path |-> p, fmt |-> f, backend |-> b] :
     p \in Paths, f \in Formats, b \in Backends}
=============================================================================
