INIT Init
NEXT Next
CONSTANTS MaxIdx = 5
 MaxTerm = 2
 Clients = 2
 MaxSteps = 6
INVARIANTS Kept Honest Ordered Spans Empty
CHECK_DEADLOCK FALSE
