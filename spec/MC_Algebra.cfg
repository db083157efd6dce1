INIT Init
NEXT Next
CONSTANT Wide = FALSE
INVARIANTS ShapeLemma KruskalLemma SolveLemma PolarLemma PsdLemma ScoreLemma
CHECK_DEADLOCK FALSE
