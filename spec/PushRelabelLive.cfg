CONSTANTS N = 4 WMax = 1 Slack = 0 SinkSets = {{3}, {2, 3}}
SPECIFICATION Spec
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
