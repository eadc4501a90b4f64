SPECIFICATION Spec
CONSTANTS N = 4
 WMax = 2
 Steps = 3
INVARIANTS Partition CutsPreserved DegreesSum
CHECK_DEADLOCK FALSE
