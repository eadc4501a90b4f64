INIT Init
NEXT Next
CONSTANTS NMax = 5 WMax = 4 MaxEdges = 10
CHECK_DEADLOCK FALSE
