SPECIFICATION Spec
CONSTANTS MaxLen = 4
Depth = 4
Sizes = {1, 2, 3, 6}
INVARIANTS Lawful Delivered Hist
CHECK_DEADLOCK FALSE
