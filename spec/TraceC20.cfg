SPECIFICATION Spec
CONSTANT Fail <- FailC20
CHECK_DEADLOCK FALSE
