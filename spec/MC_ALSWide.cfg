INIT Init
NEXT Next
CONSTANTS Rank2 = TRUE
 Iterations = 4
INVARIANTS StepIsAllowed StepIsDetermined
PROPERTIES LossNeverRises
CHECK_DEADLOCK FALSE
