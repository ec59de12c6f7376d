SPECIFICATION Spec
CONSTANTS MaxT = 3 MaxCues = 3
INVARIANTS TimeOrder Complete NothingLate
CHECK_DEADLOCK FALSE
