INIT Init
NEXT Next
CONSTANTS Direct = {"ep", "pl", "tn", "sc", "ti", "tb", "ix", "rc"} MaxLog = 3
INVARIANTS Agree SafeForward
CHECK_DEADLOCK FALSE
