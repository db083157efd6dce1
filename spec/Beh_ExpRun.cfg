INIT Init
NEXT Next
CONSTANTS
  Exps = {"e", "h", "k"}
  Attrs = {"x", "p"}
  Params = {"p", "q", "init"}
  Outs = {"u", "v"}
  Mets = {"m", "n"}
  Metas = {"d", "r"}
  MaxOps = 9
CHECK_DEADLOCK FALSE
