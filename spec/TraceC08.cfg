SPECIFICATION Spec
CONSTANT Fail <- FailC08
CHECK_DEADLOCK FALSE
