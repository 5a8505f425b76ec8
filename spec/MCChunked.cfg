INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip CutOk NothingLost NoErrUnlessRaising AgreeIfFine Emit
