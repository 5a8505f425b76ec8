INIT Init
NEXT Next
INVARIANT Framed
INVARIANT BlockDigest
INVARIANT PayloadDigest
INVARIANT Emit
CHECK_DEADLOCK FALSE
