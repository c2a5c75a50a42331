SPECIFICATION Spec
CONSTANTS N = 6  NE = 8  Directed = "F"  MaxSigs = 1
VIEW View
INVARIANTS TypeOK RefusedStutters Independent Kinds Emit EmitCalls
CHECK_DEADLOCK FALSE
