CONSTANTS MaxLen = 6 Digits = {1, 2} SkipRuns = TRUE LoopWeight = FALSE VertexWeight = TRUE
SPECIFICATION Spec
INVARIANTS MeaningAtEnd
CHECK_DEADLOCK FALSE
