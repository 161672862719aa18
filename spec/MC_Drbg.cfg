INIT Init
NEXT Next
INVARIANTS CounterIsPosition SeedKept WithinLimit RequestsAreCutsOfOneStream NothingWhenDead AnsweredWhenPossible
CHECK_DEADLOCK FALSE
