SPECIFICATION Spec
CONSTANTS MaxLen = 3
Depth = 3
Sizes = {1, 2, 4}
INVARIANTS Lawful Delivered Hist
CHECK_DEADLOCK FALSE
