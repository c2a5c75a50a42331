SPECIFICATION Spec
CONSTANT Fail <- FailC13
CHECK_DEADLOCK FALSE
