CONSTANTS MaxLen = 8 Digits = {1, 2} SkipRuns = TRUE LoopWeight = TRUE VertexWeight = TRUE
SPECIFICATION Spec
INVARIANTS MeaningAtEnd
CHECK_DEADLOCK FALSE
