INIT Init
NEXT Next
CONSTANT Want = "side"
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
