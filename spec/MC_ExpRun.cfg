SPECIFICATION Spec
CONSTANTS
  Exps = {"e", "h"}
  Attrs = {"x", "p"}
  Params = {"p", "init"}
  Outs = {"u"}
  Mets = {"m"}
  Metas = {"n"}
  MaxOps = 4
VIEW View
INVARIANT LatestValues NothingElse
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
