SPECIFICATION Spec
CONSTANTS MaxLen=3 Alphabet={0,39,34,96,92,110,37,233,32}
INVARIANTS RoundTrip EmitInv
CHECK_DEADLOCK FALSE
