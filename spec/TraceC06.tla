------------------------------ MODULE TraceC06 ------------------------------
(* Estimates of the largest eigenvalue. Weights and estimates are recorded in *)
(* units of the graph's own scale.                                           *)
EXTENDS Spectral, TraceBase

Tol(emax) == 5 + emax \div 200000
EstFail(r, W, q, emax) ==
  LET t == Tol(emax)  v == q.lmax
  IN IF q.exc # "" THEN {"estimation by " \o q.method \o " raised " \o q.exc}
     ELSE IF ~WF(v) THEN {"estimate is finite"}
     ELSE CASE q.method = "fourier" -> Clause("exact from the Fourier basis", Close(v, emax, t))
            [] q.method \in {"lanczos", "read"} ->
                 \* The iteration is complete on up to ten vertices, approximate beyond.
                 Clause("iterative estimate is not below",
                    v >= (IF Len(W) <= 10 THEN emax ELSE emax \div 2) - t)
                 \cup Clause("iterative estimate is at most one percent above", v <= FMul(emax, 1010300) + t)
            [] q.method = "bounds" ->
                 Clause("bound is not below", v >= emax - t)
                 \cup Clause("tightest of the documented bounds",
                        \E b \in Bounds(W, q.lt) : Close(v, b, t))
            [] OTHER -> {"unknown method"}

(* Theory: every documented bound is one. *)
TheoryOK(W, emax) ==
  /\ BoundSize(W) >= emax - Tol(emax) /\ BoundDegree(W) >= emax - Tol(emax)
  /\ BoundEdge(W) >= emax - Tol(emax) /\ BoundMean(W) >= emax - Tol(emax)

FailC06(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE LET W == M2(r.W)
       IN IF ~(\A t \in DOMAIN r.ref : Certified(Lap(W, t), r.ref[t])) THEN {"certificate"}
          ELSE IF ~Assert(TheoryOK(W, EMax(r.ref["combinatorial"])), "CERTIFICATE bounds") THEN {"theory"}
          ELSE UNION {EstFail(r, W, r.out.ests[k], EMax(r.ref[r.out.ests[k].lt])) : k \in DOMAIN r.out.ests}
=============================================================================
