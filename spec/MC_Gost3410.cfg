INIT Init
NEXT Next
INVARIANTS Sound OrderOfBase Regular Override Works
CHECK_DEADLOCK FALSE
