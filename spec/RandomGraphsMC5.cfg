SPECIFICATION Spec
CONSTANTS N = 5  K = 3
INVARIANT Outcomes
INVARIANT Mark
INVARIANT Emit
POSTCONDITION AllDrawn
CHECK_DEADLOCK FALSE
