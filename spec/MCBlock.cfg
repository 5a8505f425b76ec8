INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Consumes RoundTrip AsciiOk AsciiSame VerifyAgrees Emit
