INIT Init
NEXT Next
CONSTANTS
  MaxNodes = 4
  Toks <- ToksD
  Vals <- ValsC
  Emit = FALSE
INVARIANTS Laws MoveLaws
