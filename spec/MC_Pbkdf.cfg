INIT Init
NEXT Next
INVARIANTS HasLength PrefixOfLonger ByBlocks Blocks
CHECK_DEADLOCK FALSE
