SPECIFICATION Spec
CONSTANTS MaxB = 2
INVARIANTS FramesKept NumbersDistinct VisitAll
CHECK_DEADLOCK FALSE
