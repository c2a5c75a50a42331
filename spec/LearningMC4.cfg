SPECIFICATION Spec
CONSTANTS N = 4  Weight = {0, 1000000}  Values <- VALS  Taus = {0, 250000, 3000000}  Depth = 2
INVARIANTS MaximumPrinciple Kept StuckIsOptimal Constant Emit
PROPERTY Descends
CHECK_DEADLOCK FALSE
