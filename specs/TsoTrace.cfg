INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT MaxL = 262144
