SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 101, 49, 46, 43, 39, 34, 92, 47, 42, 60, 61, 32, 10, 36, 35}
  MaxLen = 3
  Show = FALSE
INVARIANTS Agrees Complete Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
