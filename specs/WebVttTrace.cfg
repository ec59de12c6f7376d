SPECIFICATION Spec
INVARIANT Accept
INVARIANT Complete
CHECK_DEADLOCK FALSE
