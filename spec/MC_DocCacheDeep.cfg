INIT Init
NEXT Next
VIEW View
CONSTANTS
  MaxOps = 2
  MaxSize = 3
INVARIANTS KeysFresh PathsFresh ValuesFresh
