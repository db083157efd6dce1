SPECIFICATION Spec
CONSTANTS
  Objects = {"a", "b"}
  Files = {"f"}
  Groups = {"g"}
  Types = {"KruskalTensor", "Parafac2Tensor"}
  MaxOps = 6
VIEW View
INVARIANT LoadsWhatWasStored
PROPERTIES OthersUntouched StoringKeepsMemory
CHECK_DEADLOCK FALSE
