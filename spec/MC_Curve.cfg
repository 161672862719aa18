INIT Init
NEXT Next
INVARIANTS Closed Laws Assoc Mults OrderQ OffCurve KeysDiffer SignedVerifies VerifiedIsSigned NonceRecovered KeyModQ
CHECK_DEADLOCK FALSE
