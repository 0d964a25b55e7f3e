INIT Init
NEXT Next
CONSTANTS
  Fam = "2020-12"
  Anchors = {"none", "plain"}
  Kinds = {"ref", "refx", "refn"}
  Vias = {"p"}
  MaxRes = 3
  MaxSteps = 3
  Emit = TRUE
INVARIANTS Sticky Binding Plainly Whole Agrees Case
CHECK_DEADLOCK FALSE
