INIT Init
NEXT Next
CONSTANTS
  MaxNodes = 2
  Toks <- ToksC
  Vals <- ValsC
  Emit = TRUE
INVARIANTS Out
