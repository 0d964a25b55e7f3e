INIT Init
NEXT Next
CONSTANTS
  Group = "note"
  Dials = {"2019-09", "2020-12"}
  MaxAdd = 2
  MaxWrap = 0
  Emit = TRUE
INVARIANTS Agree Notices Case
CHECK_DEADLOCK FALSE
