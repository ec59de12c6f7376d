SPECIFICATION Spec
CONSTANT MaxBytes = 6
CONSTANT Vals = {0, 3, 8, 11, 12, 62, 63}
INVARIANTS Agree Show
CHECK_DEADLOCK FALSE
