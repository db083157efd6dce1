SPECIFICATION Spec
CONSTANTS
  Loggers = {"a", "b"}
  Exps = {"e", "h"}
  Freqs = {1, 2, 3}
  MaxOps = 8
VIEW View
INVARIANT StoredIsPrefix FewUnsaved Counted
PROPERTIES SaveStoresAll NeverShrinks OthersUntouched SavingAgainChangesNothing
CHECK_DEADLOCK FALSE
