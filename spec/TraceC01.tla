------------------------------ MODULE TraceC01 ------------------------------
(* Validates histories of calls on one graph: the states the graph may be in  *)
(* are tracked through the machine of SpectralCache, and whatever was read   *)
(* must belong to one of them.                                               *)
EXTENDS Spectral, TraceBase
SC == INSTANCE SpectralCache WITH FULL <- 6, PARTIAL <- {2, 3, 4}, st <- recno, hist <- recno

(* kernels 1/2 + x/8 and x^2/32 *)
Poly(L, x) ==
  LET Lx == MatVec(L, x)  LLx == MatVec(L, Lx)
  IN << [i \in DOMAIN x |-> x[i] \div 2 + Lx[i] \div 8], [i \in DOMAIN x |-> LLx[i] \div 32] >>

(* The clauses that an observation breaks if the graph is in state s.        *)
ObsFail(r, W, ev, s) ==
  LET L == Lap(W, s.lap)  n == Len(W)  ref == r.ref[s.lap]  emax == EMax(ref)  o == ev.out
      lmaxOK(v, src, tol) ==
        CASE src = "fourier" -> Eq(v, emax, tol)
          [] src = "lanczos" -> WF(v) /\ v >= emax - 2 /\ v <= FMul(emax, 1010300) + 2
                                /\ v >= FMul(emax, 1002000)
          [] src = "bounds"  -> \E b \in Bounds(W, s.lap) : Eq(v, b, tol)
          [] OTHER -> FALSE
      basisFail(e, U, k) ==
        IF ~(e.s = <<k>> /\ U.s = <<n, k>> /\ Bounded(e, 900 * S) /\ Bounded(U, 2 * S))
        THEN {"the basis served has the size last computed"}
        ELSE Clause("basis and eigenvalues belong to the Laplacian in force",
               EigenOK(L, e.v, M2(U), 60) /\ \A i \in 1..k : Close(e.v[i], ref.e.v[i], 60))
  IN CASE ev.op = "L" ->
            Clause("the Laplacian is the one in force", o.lt = s.lap /\ IsMat(o.L, L, 30))
       [] ev.op = "lmax" ->
            Clause("largest eigenvalue is that of the last successful estimation",
                   lmaxOK(o.lmax, s.lmax.src, 5))
            \cup Clause("reading the largest eigenvalue again gives the same", o.again = o.lmax)
       [] ev.op = "basis" -> basisFail(o.e, o.U, s.basis.size)
       [] ev.op = "coherence" ->
            basisFail(o.e, o.U, 6) \cup
            Clause("coherence is that of the basis", Eq(o.coherence, MaxAbsSeq(o.U.v), 3))
       [] ev.op = "D" ->
            IF ~(Len(o.D.s) = 2 /\ o.D.s[1] = n /\ Bounded(o.D, 30 * S)) THEN {"differential operator has the right shape"}
            ELSE Clause("differential operator belongs to the Laplacian in force",
                   EqMat(MatMul(M2(o.D), Transpose(M2(o.D))), L, 300))
       [] ev.op = "grad" ->
            Clause("gradient belongs to the Laplacian in force",
               Bounded(o.g, 900 * S) /\ Close(Dot(o.g.v, o.g.v), Dot(r.x.v, MatVec(L, r.x.v)), 500))
       [] ev.op = "gft" ->
            basisFail(o.e, o.U, s.basis.size) \cup
            Clause("transform uses the basis in force",
               (o.U.s = <<n, s.basis.size>> /\ AllWF(o.U)) =>
                  IsVec(o.y, MatVec(Transpose(M2(o.U)), r.x.v), 60))
       [] ev.op \in {"exact", "cheby"} ->
            LET p == Poly(L, r.x.v)
            IN Clause("filtering uses the Laplacian in force",
                 IsMat(o.y, [i \in 1..n |-> <<p[1][i], p[2][i]>>], 300))
       [] ev.op = "frame bounds" ->
            \* of the kernel x / 8
            Clause("spectrum assumed by the frame bounds is that of the largest eigenvalue in force",
               /\ Eq(o.A, 0, 2)
               /\ WF(o.B) /\ o.B >= 0 /\ lmaxOK(8 * FSqrt(o.B), s.lmax.src, 100))
       [] ev.op \in {"bad laplacian", "bad estimate", "bad filter", "bad signal"} ->
            Clause("invalid calls are refused with a ValueError", o.raised = "ValueError")
       [] OTHER -> {}

StepFail(r, W, acc, ev) ==
  LET nexts == UNION {SC!Step(s, [op |-> ev.op, arg |-> ev.arg]) : s \in acc.poss}
      judged == TLCEval([s \in nexts |-> ObsFail(r, W, ev, s)])
      good == {s \in nexts : judged[s] = {}}
  IN IF ev.exc # "" THEN [poss |-> nexts, fail |-> acc.fail \cup {ev.op \o " raised " \o ev.exc}]
     ELSE IF good # {} THEN [poss |-> good, fail |-> acc.fail]
     ELSE [poss |-> nexts, fail |-> acc.fail \cup judged[CHOOSE s \in nexts : TRUE]]

FailC01(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE LET W == M2(r.W)
       IN IF ~(\A t \in DOMAIN r.ref : Certified(Lap(W, t), r.ref[t])) THEN {"certificate"}
          ELSE FoldLeft(LAMBDA acc, ev : TLCEval(StepFail(r, W, acc, ev)),
                        [poss |-> {SC!Fresh(r.start)}, fail |-> {}], r.out.events).fail
=============================================================================
