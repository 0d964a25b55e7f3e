INIT Init
NEXT Next
CONSTANTS
  Depth = 3
  Starts <- StartsD
INVARIANTS Unique RootStays Coherent WellFormed Out
