SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 49, 46, 101, 39, 92, 47, 42, 10}
  MaxLen = 6
  Show = FALSE
INVARIANTS Agrees Complete Bounded
CHECK_DEADLOCK FALSE
