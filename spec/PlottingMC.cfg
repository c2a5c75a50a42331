SPECIFICATION Spec
CONSTANTS N = 3  Value = {0, 1000000, 3000000}  Intercepts = {0, 250000}
INVARIANTS EachEdgeOnce SegmentsJoinNeighbors Ranges Shifted Covered ScaleEnds
CHECK_DEADLOCK FALSE
