SPECIFICATION Spec
CONSTANTS
  Ops <- Few
  MaxOps = 3
  MaxPool = 20
VIEW View
INVARIANT DataNeverChange ClassesPartition
PROPERTIES OnlyOwnersChange
CHECK_DEADLOCK FALSE
