INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Pairs
INVARIANT Attribution
INVARIANT Thread
INVARIANT Shown
