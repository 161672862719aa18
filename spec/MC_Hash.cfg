INIT Init
NEXT Next
INVARIANTS AgreesWithStandard ReturnedIsRight BufferIsTail NoHistory
CHECK_DEADLOCK FALSE
