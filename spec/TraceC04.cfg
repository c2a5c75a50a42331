SPECIFICATION Spec
CONSTANT Fail <- FailC04
CHECK_DEADLOCK FALSE
