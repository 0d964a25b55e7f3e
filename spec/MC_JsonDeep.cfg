INIT Init
NEXT Next
CONSTANTS
  MaxNodes = 3
INVARIANTS Refl Spellings Against Congruent Wellformed
