INIT Init
NEXT Next
CONSTANTS
  MaxLen = 3
  Elems <- E3
INVARIANTS Laws Out
