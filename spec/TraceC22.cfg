SPECIFICATION Spec
CONSTANT Fail <- FailC22
CHECK_DEADLOCK FALSE
