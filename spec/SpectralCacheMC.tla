--------------------------- MODULE SpectralCacheMC ---------------------------
(* Explores the machine, one history per abstract state (VIEW), and emits a  *)
(* history for every transition.                                             *)
EXTENDS SpectralCache, Json
View == st
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
