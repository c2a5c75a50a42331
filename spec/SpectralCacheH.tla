--------------------------- MODULE SpectralCacheH ---------------------------
(* Emits every history of LEN calls that may change the spectral state: what *)
(* an implementation remembers may depend on more than the abstract state.   *)
EXTENDS SpectralCache, Json
CONSTANT LEN
Mutators == {o \in Ops : \/ o.op \in {"laplacian", "estimate", "diff", "bad laplacian", "bad estimate"}
                         \/ (o.op = "fourier" /\ o.arg # 3)}
NextH == Len(hist) <= LEN /\ \E o \in Mutators : Do(o)
SpecH == Init /\ [][NextH]_vars
Emit == Len(hist') = LEN + 1 => PrintT("H " \o ToJson(hist'))
View == <<hist>>
=============================================================================
