SPECIFICATION Spec
CONSTANT Fail <- FailC01
CHECK_DEADLOCK FALSE
