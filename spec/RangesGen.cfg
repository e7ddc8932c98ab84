CONSTANTS
  Lo <- Minus2
  Hi = 4
  Lo2 <- Minus1
  Hi2 = 2
INIT Init
NEXT Next
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
