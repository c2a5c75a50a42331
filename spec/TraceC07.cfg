SPECIFICATION Spec
CONSTANT Fail <- FailC07
CHECK_DEADLOCK FALSE
