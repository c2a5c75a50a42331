SPECIFICATION Spec
CONSTANT Fail <- FailC10
CHECK_DEADLOCK FALSE
