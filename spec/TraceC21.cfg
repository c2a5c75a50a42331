SPECIFICATION Spec
CONSTANT Fail <- FailC21
CHECK_DEADLOCK FALSE
