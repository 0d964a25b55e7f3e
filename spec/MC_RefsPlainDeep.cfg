INIT Init
NEXT Next
CONSTANTS
  Fam = "2020-12"
  Anchors = {"none", "plain"}
  Kinds = {"ref", "refx", "refn"}
  Vias = {"p", "in"}
  MaxRes = 4
  MaxSteps = 3
  Emit = TRUE
INVARIANTS Sticky Binding Plainly Whole Agrees Case
CHECK_DEADLOCK FALSE
