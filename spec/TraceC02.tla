------------------------------ MODULE TraceC02 ------------------------------
EXTENDS GraphCore, TraceBase
FailC02(r) ==
  IF r.exc # "" THEN {"raised " \o r.exc}
  ELSE LET W == M2(r.W)
       IN UNION {ViewFail(W, r.out.views[k]) : k \in DOMAIN r.out.views}
=============================================================================
