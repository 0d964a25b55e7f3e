INIT Init
NEXT Next
CONSTANTS
  Fam = "2020-12"
  Anchors = {"none", "root", "x", "plain", "both"}
  Kinds = {"ref", "refx", "refn", "dyn", "dynx"}
  Vias = {"p", "in"}
  MaxRes = 3
  MaxSteps = 2
  Emit = FALSE
INVARIANTS Sticky Binding Plainly Whole Agrees Case
CHECK_DEADLOCK FALSE
