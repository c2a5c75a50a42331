SPECIFICATION Spec
CONSTANTS N = 4  Weight = {0, 1000000, 2500000}
INVARIANTS IsLaplacian Confluent StaysConnected KeepsResistances Metric Emit
CHECK_DEADLOCK FALSE
