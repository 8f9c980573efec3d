SPECIFICATION Spec
CONSTANTS MaxLog = 3 MaxTso = 6
INVARIANTS Unique Rising Sound Fresh Stable Harmless
CHECK_DEADLOCK FALSE
