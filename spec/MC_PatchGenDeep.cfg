INIT Init
NEXT Next
CONSTANTS
  MaxNodes = 3
  Toks <- ToksC
  Vals <- ValsC
  Emit = TRUE
INVARIANTS Out
