INIT Init
NEXT Next
CONSTANTS
  MaxNodes = 2
INVARIANTS Refl Spellings Against Congruent Wellformed
