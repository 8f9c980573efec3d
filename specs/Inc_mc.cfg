SPECIFICATION Spec
CONSTANTS
 Nodes = {1, 2}
 Tabs = {1}
 MaxLog = 3
 MaxPend = 2
 MaxTerm = 2
 Reqs <- SmallReqs
INVARIANTS Once Counter Agree
CHECK_DEADLOCK FALSE
