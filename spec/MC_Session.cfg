SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxIts = 3
  Freqs = {0, 1, 2}
  MaxCalls = 3
  MaxFaults = 1
  Generate = FALSE
INVARIANTS CounterIsPosition WithinLimit LabelsAreIndices NoRepetition FinalIsLast ExactlyTheDue LogsOnDisk MarkIsDisk NamedAreComplete
PROPERTIES NeverAltered FaultsAreSafe CheckpointWritesLog
CHECK_DEADLOCK FALSE
