SPECIFICATION Spec
CONSTANT Fail <- FailC25
CHECK_DEADLOCK FALSE
