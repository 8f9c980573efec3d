SPECIFICATION Spec
CONSTANTS Stores = {1, 2, 3} Keys = 2 Peers0 = {1, 2} MaxReq = 2 MaxLost = 1 MaxMove = 1 MaxCrash = 1 Kinds = {"split", "merge", "peers", "transfer"}
INVARIANTS Halves AtRest
CHECK_DEADLOCK FALSE
