SPECIFICATION SpecH
CONSTANTS FULL = 6
 PARTIAL = {2, 3, 4}
 LEN = 3
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Coherent FourierSource
CHECK_DEADLOCK FALSE
