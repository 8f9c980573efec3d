INIT Init
NEXT Next
CONSTANTS Tids = {7}
 Sids = {50}
 Ids0 = {1, 2}
 Names = {"a", "b"}
 MaxSteps = 4
INVARIANTS Sound Refused Dropped Removable
CHECK_DEADLOCK FALSE
