SPECIFICATION Spec
CONSTANTS MaxPay = 3
 MaxLen = 8
 Alphabet = {0, 1, 3, 7}
 MaxTs = 1500
 Out = TRUE
INVARIANT RoundTrip
INVARIANT EscapeInv
INVARIANT TsInv
INVARIANT Emit
CHECK_DEADLOCK FALSE
