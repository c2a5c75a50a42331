------------------------------ MODULE TraceC12 ------------------------------
(* Histories of saves and loads over a few paths.                            *)
EXTENDS Exchange, Mat, TraceBase
FS == INSTANCE FileStore WITH Paths <- {}, Graphs <- {}, Formats <- {}, Backends <- {}

(* graph-tool writes six significant digits in GML.                          *)
SixDigits(got, want) ==
  Len(got) = Len(want) /\ \A i \in 1..Len(got) : Abs(got[i] - want[i]) <= 2 + (Abs(want[i]) \div 150000)
(* What loads: g is the graph saved (exact values W, sigs; rounded values     *)
(* Wa, sigsa); o what was loaded.                                            *)
Signals(o, g, c) ==
  IF FS!Rounded(c)
  THEN LET want == Join(Break(g.sigsa))
       IN Len(o.sigsa) = Cardinality(want) /\
          \A w \in want : \E i \in 1..Len(o.sigsa) :
             o.sigsa[i].n = w.n /\ o.sigsa[i].a.s = w.a.s /\ SixDigits(o.sigsa[i].a.v, w.a.v)
  ELSE LET want == Join(Break(g.sigs))  got == ToSet(o.sigs)
       IN want \subseteq got /\ (got = want \/ (c[2] = "gexf" /\ {x.n : x \in got \ want} = {"label"}))
LoadFail(o, g, c) ==
  Clause("loading gives the weights last saved to the path",
     IF FS!Rounded(c) THEN o.Wa.s = g.Wa.s /\ SixDigits(o.Wa.v, g.Wa.v) ELSE o.W = g.W)
  \cup Clause("loading gives the signals last saved to the path", Signals(o, g, c))

EvFail(r, acc, ev) ==
  LET ans == FS!Answer(acc.store, ev)
      store == FS!Step(acc.store, ev)
      held == {p \in DOMAIN store : store[p] # <<>>}
      promised == LET c == store[ev.path] IN ans = "loaded" => (~FS!Rounded(c) \/ r.graphs[c[1]].gml = "T")
      f == CASE ~promised -> {}
             [] ans = "ValueError" ->
                  Clause("unsupported formats and backends are refused", ev.exc # "" /\ (ev.op = "save" => ev.exc = "ValueError"))
             [] ans = "missing" ->
                  Clause("a file which does not exist cannot be loaded", ev.exc # "")
             [] ev.exc # "" -> {ev.op \o " raised " \o ev.exc}
             [] ans = "loaded" -> LoadFail(ev.out, r.graphs[store[ev.path][1]], store[ev.path])
             [] OTHER -> {}
  IN [store |-> store,
      fail |-> acc.fail \cup f
        \cup Clause("exactly the saved files exist, and no other is touched", ToSet(ev.files) = held /\ ev.others = "T")
        \cup Clause("saving leaves the graph as it was",
               \A k \in 1..Len(r.graphs) : ev.after[k] = "T")]
FailC12(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE LET paths == {r.out.events[i].path : i \in 1..Len(r.out.events)}
       IN FoldLeft(LAMBDA acc, ev : TLCEval(EvFail(r, acc, ev)),
                   [store |-> [p \in paths |-> <<>>], fail |-> {}], r.out.events).fail
=============================================================================
