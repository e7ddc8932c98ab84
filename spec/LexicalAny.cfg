SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 101, 49, 46, 43, 39, 34, 92, 47, 42, 60, 61, 32, 10, 36, 35}
  MaxLen = 4
  Show = TRUE
INVARIANTS Agrees Complete Bounded
CHECK_DEADLOCK FALSE
