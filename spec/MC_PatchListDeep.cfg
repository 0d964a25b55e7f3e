INIT Init
NEXT Next
CONSTANTS
  MaxLen = 4
  Elems <- E3
INVARIANTS Laws Out
