----------------------------- MODULE ExchangeMC -----------------------------
(* All sets of at most TWO signals over tricky names and dimensions: whatever *)
(* is plain comes back. Emits them.                                          *)
EXTENDS Exchange, Json
Names == {"a", "a_0", "a_1", "a_10", "c_b", "c_b_0", "d_01", "_e", "f_"}
Dims == {0, 1, 2, 3, 12}
Arr(d, t) == IF d = 0 THEN [s |-> <<2>>, v |-> <<t, t>>]
             ELSE [s |-> <<2, d>>, v |-> [q \in 1..(2 * d) |-> t \o ToString(q)]]
VARIABLES sigs
Init == sigs = <<>>
Next == /\ Len(sigs) < 2
        /\ \E n \in Names \ {sigs[i].n : i \in 1..Len(sigs)}, d \in Dims :
             sigs' = Append(sigs, [n |-> n, a |-> Arr(d, n)])
Spec == Init /\ [][Next]_sigs
(* What is not plain: single columns, clashes of names.                      *)
Clash == LET br == Break(sigs) IN Cardinality({br[i].n : i \in 1..Len(br)}) # Len(br)
PlainEnough ==
  Plain(sigs) \/ Clash \/ \E i \in 1..Len(sigs) :
     \/ Len(sigs[i].a.s) = 2 /\ sigs[i].a.s[2] = 1
     \/ Len(sigs[i].a.s) = 1 /\ Dim(sigs[i].n) >= 0
     \/ \E j \in 1..Len(sigs) : Len(sigs[j].a.s) = 2 /\ (sigs[j].n = sigs[i].n \o "_0" \/ sigs[j].n = BaseOf(sigs[i].n))
     \* the base of a broken signal is the name of another
JoinIdempotent == LET j == Join(Break(sigs)) IN Clash \/ \A x \in j : Len(x.a.s) = 2 \/ x.n \in {Break(sigs)[i].n : i \in 1..Len(Break(sigs))}
Emit == (Plain(sigs) /\ ~Clash) =>
  PrintT("S " \o ToJson([i \in 1..Len(sigs) |-> [n |-> sigs[i].n, d |-> IF Len(sigs[i].a.s) = 1 THEN 0 ELSE sigs[i].a.s[2]]]))
=============================================================================
