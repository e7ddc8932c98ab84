SPECIFICATION Spec
CONSTANTS
  Alphabet = {39, 34, 92, 47, 42, 10, 110}
  MaxLen = 5
  Show = TRUE
INVARIANTS Agrees Complete Bounded
CHECK_DEADLOCK FALSE
