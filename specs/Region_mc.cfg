INIT Init
NEXT Next
CONSTANTS Keys = 3
 Stores = {1, 2}
 MaxEnt = 4
 MaxReg = 3
INVARIANTS Covers SameMeaning Agree Done
CHECK_DEADLOCK FALSE
