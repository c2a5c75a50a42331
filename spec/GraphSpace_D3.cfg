SPECIFICATION Spec
CONSTANTS
  N = 3
  K = 1
  DIRECTED = TRUE
  LOOPS = TRUE
  EMIT = TRUE
INVARIANTS
  Theory
  Emit
CHECK_DEADLOCK FALSE
