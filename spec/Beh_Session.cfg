INIT Init
NEXT GenNext
CONSTANTS
  MaxIts = 5
  Freqs = {0, 1, 2, 3}
  MaxCalls = 5
  MaxFaults = 0
  Generate = TRUE
CHECK_DEADLOCK FALSE
