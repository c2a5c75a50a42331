SPECIFICATION Spec
CONSTANT LEN = 2
ACTION_CONSTRAINT Emit
INVARIANT Laws
CHECK_DEADLOCK FALSE
