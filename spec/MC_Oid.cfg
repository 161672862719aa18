INIT Init
NEXT Next
INVARIANTS Invertible Header Minimal Valid
CHECK_DEADLOCK FALSE
