INIT Init
NEXT Next
CONSTANT Wide = TRUE
INVARIANTS ShapeLemma KruskalLemma SolveLemma PolarLemma PsdLemma ScoreLemma
CHECK_DEADLOCK FALSE
