INIT Init
NEXT Next
CONSTANTS
  MaxOps = 6
  Depth = 3
  Keys <- K1
  Rich = FALSE
INVARIANTS Tree Gone Apart Split Upward Mutual Back Out
