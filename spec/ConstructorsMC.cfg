SPECIFICATION Spec
CONSTANT M = 9
ACTION_CONSTRAINT Emit
INVARIANT Laws
CHECK_DEADLOCK FALSE
