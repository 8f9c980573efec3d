CONSTANTS MaxRev = 3
MaxNow = 4
NW = 0
Leases = {1, 2}
Compacts = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Sound LeaseInv WatchInv
PROPERTY Steps
