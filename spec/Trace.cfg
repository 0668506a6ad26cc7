INIT Init
NEXT Next
INVARIANT Allowed
CHECK_DEADLOCK FALSE
