CONSTANTS MaxLen = 6 Digits = {1, 2} SkipRuns = FALSE LoopWeight = TRUE VertexWeight = TRUE
SPECIFICATION Spec
INVARIANTS MeaningAtEnd
CHECK_DEADLOCK FALSE
