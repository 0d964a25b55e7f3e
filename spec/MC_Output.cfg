INIT Init
NEXT Next
CONSTANTS
  Group = "note"
  Dials = {"2019-09", "2020-12"}
  MaxAdd = 2
  MaxWrap = 0
  Emit = FALSE
INVARIANTS Views
CHECK_DEADLOCK FALSE
