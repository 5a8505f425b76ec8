INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS GetAfterAdd ReplaceKeepsOthers ReplaceKeepsLen RemoveOne ReplaceAllowed RemoveAllowed CaseBlind Emit
