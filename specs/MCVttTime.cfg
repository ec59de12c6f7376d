SPECIFICATION Spec
INVARIANT Norm
CHECK_DEADLOCK FALSE
