INIT Init
NEXT Next
INVARIANT Balanced
INVARIANT Written
CHECK_DEADLOCK FALSE
