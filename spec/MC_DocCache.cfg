INIT Init
NEXT Next
VIEW View
CONSTANTS
  MaxOps = 1
  MaxSize = 3
INVARIANTS KeysFresh PathsFresh ValuesFresh
