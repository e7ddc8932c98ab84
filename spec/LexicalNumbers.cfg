SPECIFICATION Spec
CONSTANTS
  Alphabet = {48, 57, 101, 46, 45, 120}
  MaxLen = 5
  Show = TRUE
INVARIANTS Agrees Complete Bounded
CHECK_DEADLOCK FALSE
