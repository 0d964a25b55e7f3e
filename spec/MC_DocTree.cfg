INIT Init
NEXT Next
CONSTANTS
  Depth = 2
  Starts <- StartsQ
INVARIANTS Unique RootStays Coherent WellFormed Out
