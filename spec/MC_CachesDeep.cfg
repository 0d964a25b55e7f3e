INIT Init
NEXT Next
CONSTANTS
  MaxOps = 3
  CKs <- Two
INVARIANTS Twice FailKeeps Identity Out
PROPERTY Isolated
