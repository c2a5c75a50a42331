SPECIFICATION Spec
CONSTANTS N = 3  Value = {0, 1000000, 3000000}
INVARIANTS Symmetrical Idempotent Ordered Transposed Support Emit
CHECK_DEADLOCK FALSE
