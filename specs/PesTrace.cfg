SPECIFICATION Spec
CONSTANT MaxPay = 32768
INVARIANT Accept
CHECK_DEADLOCK FALSE
