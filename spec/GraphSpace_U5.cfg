SPECIFICATION Spec
CONSTANTS
  N = 5
  K = 1
  DIRECTED = FALSE
  LOOPS = FALSE
  EMIT = TRUE
INVARIANTS
  Theory
  Emit
CHECK_DEADLOCK FALSE
