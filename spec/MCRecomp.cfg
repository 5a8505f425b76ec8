INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT AllRead
INVARIANT SameRecords
INVARIANT FixedPoint
INVARIANT Shown
CONSTANT DigestText <- FakeDigest
