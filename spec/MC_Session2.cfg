SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxIts = 4
  Freqs = {0, 1, 2, 3}
  MaxCalls = 4
  MaxFaults = 2
  Generate = FALSE
INVARIANTS CounterIsPosition WithinLimit LabelsAreIndices NoRepetition FinalIsLast ExactlyTheDue LogsOnDisk MarkIsDisk NamedAreComplete
PROPERTIES NeverAltered FaultsAreSafe CheckpointWritesLog
CHECK_DEADLOCK FALSE
