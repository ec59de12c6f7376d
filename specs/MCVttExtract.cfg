SPECIFICATION Spec
CONSTANTS MaxBlocks = 2 MaxText = 4
INVARIANTS Faithful Refused
CHECK_DEADLOCK FALSE
