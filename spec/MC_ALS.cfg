INIT Init
NEXT Next
CONSTANTS Rank2 = FALSE
 Iterations = 2
INVARIANTS StepIsAllowed StepIsDetermined
PROPERTIES LossNeverRises
CHECK_DEADLOCK FALSE
