SPECIFICATION Spec
CONSTANTS Depth = 6  MaxFig = 2
INVARIANTS TrackedAreOurs OursAreTracked AfterCloseAll ClosedTwice Emit
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
