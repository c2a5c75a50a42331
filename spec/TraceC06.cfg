SPECIFICATION Spec
CONSTANT Fail <- FailC06
CHECK_DEADLOCK FALSE
