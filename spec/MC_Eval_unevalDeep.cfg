INIT Init
NEXT Next
CONSTANTS
  Group = "uneval"
  Dials = {"2019-09", "2020-12"}
  MaxAdd = 2
  MaxWrap = 1
  Emit = TRUE
INVARIANTS Agree Leftover Case
CHECK_DEADLOCK FALSE
