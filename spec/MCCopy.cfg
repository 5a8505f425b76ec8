INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT KeepsAll
INVARIANT Shown
CONSTANT DigestText <- FakeDigest
