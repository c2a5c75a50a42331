SPECIFICATION Spec
CONSTANT Fail <- FailC16
CHECK_DEADLOCK FALSE
