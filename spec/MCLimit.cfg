INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Refines Bounded Consumed Emit
