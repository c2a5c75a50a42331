SPECIFICATION Spec
CONSTANT Fail <- FailC12
CHECK_DEADLOCK FALSE
