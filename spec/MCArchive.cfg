INIT Init
NEXT Next
INVARIANT Inv
INVARIANT Shown
CHECK_DEADLOCK FALSE
