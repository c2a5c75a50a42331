SPECIFICATION Spec
CONSTANTS N = 16  NE = 30  Directed = "T"  MaxSigs = 1
VIEW View
INVARIANTS TypeOK RefusedStutters Independent Kinds Emit EmitCalls
CHECK_DEADLOCK FALSE
