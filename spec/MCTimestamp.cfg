INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Preserved ValidDate EpochInv OffsetInv Monotone Prefixes Emit
