SPECIFICATION Spec
CONSTANT Fail <- FailC05
CHECK_DEADLOCK FALSE
