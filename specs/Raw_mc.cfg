SPECIFICATION Spec
CONSTANTS MaxLog = 3 MaxTso = 4
INVARIANTS Unique Rising Sound Fresh Stable Harmless
CHECK_DEADLOCK FALSE
