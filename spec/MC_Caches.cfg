INIT Init
NEXT Next
CONSTANTS
  MaxOps = 2
  CKs <- Three
INVARIANTS Twice FailKeeps Identity Out
PROPERTY Isolated
