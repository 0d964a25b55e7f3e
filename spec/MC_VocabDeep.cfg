INIT Init
NEXT Next
CONSTANTS
  MaxOps = 3
INVARIANTS TypeOK Required Optional Monotone Out
PROPERTIES Isolated Kept Refusing
