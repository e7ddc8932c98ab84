SPECIFICATION Spec
CONSTANTS NE = 4 NV = 3
INVARIANTS MatchingInv LeafInv StopInv OracleInv
PROPERTIES Monotone Terminates
CHECK_DEADLOCK FALSE
