INIT Init
NEXT Next
CONSTANTS
  Group = "assert"
  Dials = {"2019-09", "2020-12"}
  MaxAdd = 2
  MaxWrap = 1
  Emit = TRUE
INVARIANTS Agree Conjunction Case
CHECK_DEADLOCK FALSE
