------------------------------ MODULE TraceC19 ------------------------------
(* Calls made in a world of graphs, filters, arguments and results: what all  *)
(* of it was before and after every call.                                    *)
(*   step: [op, full, on: a cell (0: none), with: cells, cells: each          *)
(*          [k: kind, of: its graph, b: facets before, a: facets after]]      *)
EXTENDS Sharing, TraceBase

Clause(name, holds) == IF holds THEN {} ELSE {name}
NameOf(kind) ==
  CASE kind = "given" -> "arguments are left alone"
    [] kind = "result" -> "returned results are left alone"
    [] kind = "shared" -> "defaults and settings are left alone"
    [] kind = "filter" -> "filters are left alone"
    [] OTHER -> "graphs aren't changed but as asked"
At(c, f, side) ==
  LET i == CHOOSE i \in 1..Len(Facets(c.k)) : Facets(c.k)[i] = f
  IN IF side = "b" THEN c.b[i] ELSE c.a[i]
StaleOf(s, c) ==
  /\ c.k = "filter" /\ c.of # 0
  /\ \E f \in {"laplacian", "lmax", "basis"} : At(s.cells[c.of], f, "b") # At(s.cells[c.of], f, "a")
CellFail(s, i) ==
  LET c == s.cells[i]  fs == Facets(c.k)
      involved == i = s.on \/ \E j \in 1..Len(s.with) : s.with[j] = i
  IN Clause(NameOf(c.k),
       Len(c.a) = Len(fs) /\ \A j \in 1..Len(fs) :
          c.b[j] = c.a[j] \/ May(c.k, fs[j], s.op, s.full = "T", i = s.on, involved, c.b[j], StaleOf(s, c)))
StepFail(s) == UNION {CellFail(s, i) : i \in 1..Len(s.cells)}
FailC19(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE CASE r.kind = "walk" -> UNION {StepFail(r.out.steps[i]) : i \in 1..Len(r.out.steps)}
         [] r.kind = "again" ->
              Clause("made again, an object is the same", r.out.first = r.out.again)
              \cup Clause("an object isn't changed by the making and the use of another", r.out.other = r.out.otherafter)
              \cup Clause("defaults and settings are left alone", r.out.shared = r.out.sharedafter)
              \cup Clause("arguments are left alone", r.out.given = r.out.givenafter)
         [] OTHER -> {"unknown record"}
=============================================================================
