INIT Init
NEXT Next
INVARIANTS AgreesWithStandard SizesAreSelections Pending NoHistory SubKeys
CHECK_DEADLOCK FALSE
