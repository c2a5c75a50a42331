SPECIFICATION Spec
CONSTANTS Depth = 3  SharedDict = FALSE  WrittenArrays = FALSE
INVARIANTS Exclusive Emit
PROPERTY Isolation
CHECK_DEADLOCK FALSE
