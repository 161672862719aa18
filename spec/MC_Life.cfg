INIT Init
NEXT Next
INVARIANTS OwnHistory AskedRight NoSharing ClearedIsSecretless
PROPERTY BuffersKept
CHECK_DEADLOCK FALSE
