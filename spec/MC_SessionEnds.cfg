SPECIFICATION Spec
CONSTANTS
  MaxIts = 2
  Freqs = {0, 1, 2}
  MaxCalls = 2
  MaxFaults = 1
  Generate = FALSE
PROPERTIES CallsEnd
CHECK_DEADLOCK FALSE
