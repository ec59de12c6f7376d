SPECIFICATION Spec
CONSTANT Bytes = {0, 1, 64, 127, 128, 255}
INVARIANTS Lawful VoidOk Show
CHECK_DEADLOCK FALSE
