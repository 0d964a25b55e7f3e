INIT Init
NEXT Next
CONSTANTS
  MaxNodes = 4
  KeySet <- KeysC
  TokSet <- ToksC
INVARIANTS ResolveIffLocation Compose Injective RelLaws Wellformed
