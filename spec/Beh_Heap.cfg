INIT Init
NEXT Next
CONSTANTS
  Ops <- All
  MaxOps = 24
  MaxPool = 40
CHECK_DEADLOCK FALSE
