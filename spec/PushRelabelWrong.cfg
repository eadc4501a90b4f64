CONSTANTS N = 4 WMax = 2 Slack = 1 SinkSets = {{3}, {2, 3}}
SPECIFICATION Spec
INVARIANTS MaxAtEnd
CHECK_DEADLOCK FALSE
