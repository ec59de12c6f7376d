SPECIFICATION Spec
CONSTANT Full = FALSE
INVARIANT CueRight
INVARIANT EndsRight
INVARIANT Emit
CHECK_DEADLOCK FALSE
