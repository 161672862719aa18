INIT Init
NEXT Next
INVARIANTS Involution SameNumber Faithful FixInverse EqualIsZeroXor EqualIsIdentity ZeroValue ZeroFill TopBit XorLen
CHECK_DEADLOCK FALSE
