CONSTANTS N = 5 WMax = 1 Slack = 0 SinkSets = {{4}, {3, 4}}
SPECIFICATION Spec
INVARIANTS Preflow Valid Bounded MaxAtEnd LargestSide
CHECK_DEADLOCK FALSE
