SPECIFICATION Spec
CONSTANTS NE = 3 NV = 3
INVARIANTS MatchingInv LeafInv StopInv OracleInv
PROPERTIES Monotone Terminates
CHECK_DEADLOCK FALSE
