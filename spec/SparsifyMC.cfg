SPECIFICATION Spec
CONSTANTS N = 4  Weight = {0, 1000000}  Q1 = 2  Q2 = 3
INVARIANTS Foster Unbiased Conserved Subgraph Countable Rayleigh Emit
PROPERTY Stops
CHECK_DEADLOCK FALSE
