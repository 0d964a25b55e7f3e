INIT Init
NEXT Next
CONSTANTS
  MaxOps = 2
INVARIANTS TypeOK Required Optional Monotone Out
PROPERTIES Isolated Kept Refusing
