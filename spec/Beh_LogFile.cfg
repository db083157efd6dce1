INIT Init
NEXT Next
CONSTANTS
  Loggers = {"a", "b"}
  Exps = {"e", "h", "k"}
  Freqs = {1, 2, 3, 5}
  MaxOps = 24
CHECK_DEADLOCK FALSE
