SPECIFICATION Spec
CONSTANT Fail <- FailC11
CHECK_DEADLOCK FALSE
