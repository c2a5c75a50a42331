SPECIFICATION Spec
CONSTANT Fail <- FailC15
CHECK_DEADLOCK FALSE
