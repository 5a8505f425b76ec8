INIT Init
NEXT Next
INVARIANT Sound
INVARIANT InBlock
INVARIANT Emit
CHECK_DEADLOCK FALSE
