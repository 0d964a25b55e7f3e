INIT Init
NEXT Next
CONSTANTS
  Alpha = {47, 126, 48, 49, 97}
  MaxLen = 6
  Emit = FALSE
INVARIANTS ParseText Escaping SingleKey Grammar TokenCount PrefixLaw RelRound Out
