SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANT CueRight
INVARIANT EndsRight
INVARIANT Emit
CHECK_DEADLOCK FALSE
