SPECIFICATION Spec
CONSTANTS 
 n1 = n1
 n2 = n2
 Nodes = {n1, n2}
 MaxP = 4
 MaxTerm = 3
 MaxLog = 3
 MaxL = 3
 Counts = {1}
 Adjust = FALSE
 MaxGiven = 2

SYMMETRY Sym
INVARIANTS Unique Grows Promised
CHECK_DEADLOCK FALSE
