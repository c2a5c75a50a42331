SPECIFICATION Spec
CONSTANT N = 3
CONSTANT M = 4
ACTION_CONSTRAINT Emit
INVARIANT Laws
CHECK_DEADLOCK FALSE
