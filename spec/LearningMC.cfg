SPECIFICATION Spec
CONSTANTS N = 3  Weight = {0, 1000000, 2500000}  Values <- VALS  Taus = {0, 250000, 3000000}  Depth = 3
INVARIANTS MaximumPrinciple Kept StuckIsOptimal Constant Emit
PROPERTY Descends
CHECK_DEADLOCK FALSE
