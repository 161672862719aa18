----------------------------- MODULE MC_Utils -------------------------------
(* C23 on the specification: the laws that tie the helpers to numbers and strings.  A behaviour holds   *)
(* two byte strings and applies helpers to them; the values must stay those of the numbers they stand for. *)
EXTENDS Utils, FiniteSets, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Vals == {0, 1, 127, 128, 255}
MaxLen == IF Thorough THEN 3 ELSE 2
Strs == UNION {[1..n -> Vals] : n \in 0..MaxLen}
\* Value of a short string as a TLC integer.
RECURSIVE IntOf(_)
IntOf(b) == IF b = <<>> THEN 0 ELSE 256 * IntOf(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
VARIABLES a, b, w
vars == <<a, b, w>>
Init == a \in Strs /\ b \in Strs /\ w = <<>>
Next == \/ /\ w = <<>> /\ w' \in {<<"xor">>, <<"num">>} /\ UNCHANGED <<a, b>>
        \/ /\ w = <<"xor">> /\ Len(a) = Len(b) /\ a' = UXor(a, b) /\ w' = <<"again", a>> /\ UNCHANGED b
        \/ /\ Len(w) = 2 /\ w[1] = "again" /\ a' = UXor(a, b) /\ w' = <<"back", w[2]>> /\ UNCHANGED b
        \/ /\ w = <<"num">> /\ \E k \in Len(a)..(MaxLen + 1) : UFits(UToInt(a), k) /\ b' = UToBytes(UToInt(a), k) /\ w' = <<"wide">> /\ UNCHANGED a
Involution == (Len(w) = 2 /\ w[1] = "back") => UEqual(a, w[2])
SameNumber == w = <<"wide">> => /\ UToInt(b) = UToInt(a) /\ IntOf(b) = IntOf(a)
                                /\ UIsZero(SubSeq(b, 1, Len(b) - Len(a)))
Faithful == UToInt(a) = UToInt(b) <=> IntOf(a) = IntOf(b)
FixInverse == UToBytes(UToInt(a), Len(a)) = a
EqualIsZeroXor == Len(a) = Len(b) => (UEqual(a, b) <=> UIsZero(UXor(a, b)))
EqualIsIdentity == UEqual(a, b) <=> a = b
ZeroValue == UIsZero(a) <=> UToInt(a) = <<>>
ZeroFill == UIsZero(UZero(a)) /\ Len(UZero(a)) = Len(a)
TopBit == a # <<>> => (UTop(a) <=> 2 * IntOf(a) >= 256 ^ Len(a))
XorLen == Len(UXor(a, b)) = Min2(Len(a), Len(b)) /\ UXor(a, b) = UXor(b, a)
=============================================================================
