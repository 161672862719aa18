INIT Init
NEXT Next
INVARIANTS AgreesWithStandard ClearedIsZeroKey NoHistory PrfForm
CHECK_DEADLOCK FALSE
