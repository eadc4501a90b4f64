INIT Init
NEXT Next
CONSTANT Want = "all"
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
