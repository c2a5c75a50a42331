SPECIFICATION Spec
CONSTANTS
  N = 4
  K = 1
  DIRECTED = TRUE
  LOOPS = FALSE
  EMIT = TRUE
INVARIANTS
  Theory
  Emit
CHECK_DEADLOCK FALSE
