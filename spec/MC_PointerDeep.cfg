INIT Init
NEXT Next
CONSTANTS
  Alpha = {47, 126, 48, 49, 97, 43, 35}
  MaxLen = 7
  Emit = FALSE
INVARIANTS ParseText Escaping SingleKey Grammar TokenCount PrefixLaw RelRound Out
