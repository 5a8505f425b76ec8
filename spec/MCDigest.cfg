INIT Init
NEXT Next
INVARIANT Right
INVARIANT NotEarly
INVARIANT Emit
CHECK_DEADLOCK FALSE
