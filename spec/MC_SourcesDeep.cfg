INIT Init
NEXT Next
CONSTANTS
  MaxReg = 3
  Srcs = {1, 2}
  Cats = {1, 2}
INVARIANTS Valid Invalid Right Whole DefaultLast
PROPERTY Isolated
