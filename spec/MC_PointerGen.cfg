INIT Init
NEXT Next
CONSTANTS
  Alpha = {47, 126, 48, 49, 97, 35, 43, 45}
  MaxLen = 5
  Emit = TRUE
INVARIANTS Out
