INIT Init
NEXT Next
CONSTANTS MaxIdx = 7
 MaxTerm = 3
 Clients = 2
 MaxSteps = 11
INVARIANTS Kept Honest Ordered Spans Empty
CHECK_DEADLOCK FALSE
