SPECIFICATION Spec
CONSTANT Fail <- FailC09
CHECK_DEADLOCK FALSE
