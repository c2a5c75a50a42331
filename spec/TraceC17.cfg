SPECIFICATION Spec
CONSTANT Fail <- FailC17
CHECK_DEADLOCK FALSE
