SPECIFICATION Spec
CONSTANT Fail <- FailC23
CHECK_DEADLOCK FALSE
