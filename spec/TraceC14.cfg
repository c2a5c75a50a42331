SPECIFICATION Spec
CONSTANT Fail <- FailC14
CHECK_DEADLOCK FALSE
