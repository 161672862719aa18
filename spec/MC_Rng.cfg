INIT Init
NEXT Next
INVARIANTS Uniform NeverUnusable AllReached Conserved
CHECK_DEADLOCK FALSE
