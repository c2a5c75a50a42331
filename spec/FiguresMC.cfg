SPECIFICATION Spec
CONSTANTS Depth = 5  MaxFig = 3
INVARIANTS TrackedAreOurs OursAreTracked AfterCloseAll ClosedTwice Emit
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
