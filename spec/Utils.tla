------------------------------- MODULE Utils --------------------------------
(* The byte-string helpers of gostcrypto.utils: what they compute.  Numbers are those of BigNat. *)
EXTENDS BigNat
\* Big-endian value of a byte string, and its inverse on k bytes (the number must fit).
UToInt(b) == NNorm(b)
UFits(n, k) == Len(n) <= k
UToBytes(n, k) == NFix(n, k)
UXor(a, b) == XorSeq(a, b)
UEqual(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
UIsZero(b) == \A j \in 1..Len(b) : b[j] = 0
UTop(b) == b[1] >= 128
UZero(b) == Zeros(Len(b))
============================================================================
