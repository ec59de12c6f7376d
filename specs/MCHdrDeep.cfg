SPECIFICATION Spec
CONSTANT MaxBytes = 9
CONSTANT Vals = {0, 1, 3, 4, 8, 9, 10, 11, 12, 62, 63}
INVARIANTS Agree Show
CHECK_DEADLOCK FALSE
