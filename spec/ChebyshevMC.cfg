SPECIFICATION Spec
CONSTANT MAXM = 6
INVARIANTS Reproduced Damped
CHECK_DEADLOCK FALSE
