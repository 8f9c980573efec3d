CONSTANTS MaxRev = 3
MaxNow = 4
NW = 1
Leases = {1}
Compacts = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Sound LeaseInv WatchInv
PROPERTY Steps
