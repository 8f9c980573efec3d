SPECIFICATION Spec
CONSTANTS 
 n1 = n1
 n2 = n2
 Nodes = {n1, n2}
 MaxP = 3
 MaxTerm = 2
 MaxLog = 2
 MaxL = 3
 Counts = {1}
 Adjust = TRUE
 MaxGiven = 2

SYMMETRY Sym
INVARIANTS Unique Grows Promised
CHECK_DEADLOCK FALSE
