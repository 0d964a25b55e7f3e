INIT Init
NEXT Next
CONSTANTS
  Group = "apply"
  Dials = {"2019-09", "2020-12"}
  MaxAdd = 1
  MaxWrap = 1
  Emit = TRUE
INVARIANTS Case
CHECK_DEADLOCK FALSE
