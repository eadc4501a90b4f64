CONSTANTS Nodes = {n0, n1, n2, n3, n4, n5} KMax = 1 SiftUpAfterDelete = FALSE MaxOps = 7 n0 = n0 n1 = n1 n2 = n2 n3 = n3 n4 = n4 n5 = n5
SPECIFICATION Spec
VIEW View
INVARIANTS HeapOrder
CHECK_DEADLOCK FALSE
SYMMETRY Perms
