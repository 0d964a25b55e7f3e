INIT Init
NEXT Next
CONSTANTS
  Fam = "2020-12"
  Anchors = {"none", "root", "x"}
  Kinds = {"ref", "refx", "dyn"}
  Vias = {"p"}
  MaxRes = 3
  MaxSteps = 5
  Emit = TRUE
INVARIANTS Sticky Binding Plainly Whole Agrees Case
CHECK_DEADLOCK FALSE
