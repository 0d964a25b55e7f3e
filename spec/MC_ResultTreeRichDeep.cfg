INIT Init
NEXT Next
CONSTANTS
  MaxOps = 4
  Depth = 3
  Keys <- K2
  Rich = TRUE
INVARIANTS Tree Gone Apart Split Upward Mutual Back Out
