SPECIFICATION Spec
CONSTANTS N = 3  Depth = 2
INVARIANTS LastOneWins BasisSuffices Emit
PROPERTY BasisGrows
CHECK_DEADLOCK FALSE
