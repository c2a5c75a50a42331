SPECIFICATION Spec
CONSTANT Fail <- FailC19
CHECK_DEADLOCK FALSE
