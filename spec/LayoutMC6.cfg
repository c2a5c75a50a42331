SPECIFICATION Spec
CONSTANTS N = 6  Depth = 3
INVARIANTS LastOneWins BasisSuffices Emit
PROPERTY BasisGrows
CHECK_DEADLOCK FALSE
