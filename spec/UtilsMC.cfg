SPECIFICATION Spec
CONSTANTS N = 2  Value = {0, 1000000, 2000000, 5000000}
INVARIANTS Symmetrical Idempotent Ordered Transposed Support Emit
CHECK_DEADLOCK FALSE
