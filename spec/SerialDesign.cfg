SPECIFICATION Spec
CONSTANTS MaxLen = 13
Ints = {0, 1}
INVARIANTS RoundTrip Delimited SameRank
CHECK_DEADLOCK FALSE
