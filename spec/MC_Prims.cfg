INIT Init
NEXT Next
INVARIANTS KuzOverride MagOverride StreebogOverride BytesOverride BigOverride InvOverride
CHECK_DEADLOCK FALSE
