INIT TInit
NEXT TNext
VIEW TView
CHECK_DEADLOCK FALSE
