SPECIFICATION Spec
CONSTANTS FULL = 6
 PARTIAL = {2, 3, 4}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Coherent FourierSource ReadsIdempotent SwitchForgets
PROPERTY BasisGrows
CHECK_DEADLOCK FALSE
