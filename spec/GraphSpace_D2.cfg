SPECIFICATION Spec
CONSTANTS
  N = 2
  K = 2
  DIRECTED = TRUE
  LOOPS = TRUE
  EMIT = TRUE
INVARIANTS
  Theory
  Emit
CHECK_DEADLOCK FALSE
