CONSTANTS Nodes = {n0, n1, n2, n3} KMax = 2 SiftUpAfterDelete = TRUE MaxOps = 100 n0 = n0 n1 = n1 n2 = n2 n3 = n3
SPECIFICATION Spec
VIEW View
INVARIANTS HeapRefines HeapOrder HeapTop BucketRefines BucketSizes FifoRefines CursorTop
CHECK_DEADLOCK FALSE
SYMMETRY Perms
