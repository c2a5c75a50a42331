SPECIFICATION Spec
CONSTANT Fail <- FailC02
CHECK_DEADLOCK FALSE
