SPECIFICATION Spec
CONSTANT LEN = 3
ACTION_CONSTRAINT Emit
INVARIANT Laws
CHECK_DEADLOCK FALSE
