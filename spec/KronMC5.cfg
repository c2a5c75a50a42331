SPECIFICATION Spec
CONSTANTS N = 5  Weight = {0, 1000000}
INVARIANTS IsLaplacian Confluent StaysConnected KeepsResistances Metric Emit
CHECK_DEADLOCK FALSE
