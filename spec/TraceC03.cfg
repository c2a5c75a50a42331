SPECIFICATION Spec
CONSTANT Fail <- FailC03
CHECK_DEADLOCK FALSE
