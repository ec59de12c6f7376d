SPECIFICATION Spec
CONSTANT MaxLen = 6
CONSTANT Gaps <- Gaps2
CONSTANT Kinds <- Kinds4
INVARIANTS Agree Show
CHECK_DEADLOCK FALSE
