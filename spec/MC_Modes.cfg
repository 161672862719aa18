INIT Init
NEXT Next
INVARIANTS PiecesAreTheMessage RoundTrip Register Counter GammaOnce Distinct FreshInputs
CHECK_DEADLOCK FALSE
