SPECIFICATION Spec
CONSTANTS
  N = 4
  K = 1
  DIRECTED = FALSE
  LOOPS = TRUE
  EMIT = TRUE
INVARIANTS
  Theory
  Emit
CHECK_DEADLOCK FALSE
