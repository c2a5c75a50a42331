SPECIFICATION Spec
CONSTANT Fail <- FailC24
CHECK_DEADLOCK FALSE
