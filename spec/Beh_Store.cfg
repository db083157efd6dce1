INIT Init
NEXT Next
CONSTANTS
  Objects = {"a", "b"}
  Files = {"f", "h"}
  Groups = {"g", "k"}
  Types = {"KruskalTensor", "EvolvingTensor", "Parafac2Tensor"}
  MaxOps = 12
CHECK_DEADLOCK FALSE
