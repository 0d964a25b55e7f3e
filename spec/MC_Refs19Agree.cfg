INIT Init
NEXT Next
CONSTANTS
  Fam = "2019-09"
  Anchors = {"none", "true", "false"}
  Kinds = {"ref", "refx", "rec"}
  Vias = {"p", "in"}
  MaxRes = 3
  MaxSteps = 3
  Emit = FALSE
INVARIANTS Sticky Binding Plainly Whole Agrees Case
CHECK_DEADLOCK FALSE
