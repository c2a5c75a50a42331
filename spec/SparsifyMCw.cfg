SPECIFICATION Spec
CONSTANTS N = 4  Weight = {0, 1000000, 2500000}  Q1 = 1  Q2 = 1
INVARIANTS Foster Unbiased Conserved Subgraph Countable Emit
PROPERTY Stops
CHECK_DEADLOCK FALSE
