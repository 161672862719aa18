INIT Init
NEXT Next
INVARIANTS Sound Complete Kept Plain PureOne NeverBad
CHECK_DEADLOCK FALSE
