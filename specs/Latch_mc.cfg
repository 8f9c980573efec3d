SPECIFICATION Spec
CONSTANTS Clients = {1, 2, 3}
 Keys = {1, 2, 3}
INVARIANTS MutualExclusion HoldersAreFirst NoLostWakeup NoDuplicates
