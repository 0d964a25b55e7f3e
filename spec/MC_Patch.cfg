INIT Init
NEXT Next
CONSTANTS
  MaxNodes = 3
  Toks <- ToksD
  Vals <- ValsC
  Emit = FALSE
INVARIANTS Laws MoveLaws
