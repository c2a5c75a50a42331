SPECIFICATION Spec
CONSTANTS
  N = 3
  K = 2
  DIRECTED = TRUE
  LOOPS = TRUE
  EMIT = TRUE
INVARIANTS
  Theory
  Emit
CHECK_DEADLOCK FALSE
