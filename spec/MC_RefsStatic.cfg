INIT Init
NEXT Next
CONSTANTS
  Fam = "2020-12"
  Anchors = {"none", "root", "x", "plain"}
  Kinds = {"ref", "refx", "refn"}
  Vias = {"p", "in"}
  MaxRes = 3
  MaxSteps = 2
  Emit = TRUE
INVARIANTS Sticky Binding Plainly Whole Agrees Case
CHECK_DEADLOCK FALSE
