CONSTANTS N = 4 WMax = 2 Slack = 0 SinkSets = {{3}, {2, 3}}
SPECIFICATION Spec
INVARIANTS Preflow Valid Bounded MaxAtEnd LargestSide
CHECK_DEADLOCK FALSE
