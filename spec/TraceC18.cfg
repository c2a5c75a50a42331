SPECIFICATION Spec
CONSTANT Fail <- FailC18
CHECK_DEADLOCK FALSE
