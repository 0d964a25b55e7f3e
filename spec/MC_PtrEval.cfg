INIT Init
NEXT Next
CONSTANTS
  MaxNodes = 3
  KeySet <- KeysC
  TokSet <- ToksC
INVARIANTS ResolveIffLocation Compose Injective RelLaws Wellformed
