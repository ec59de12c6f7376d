SPECIFICATION Spec
CONSTANT Bytes = {0, 127, 255}
INVARIANTS Lawful VoidOk Show
CHECK_DEADLOCK FALSE
