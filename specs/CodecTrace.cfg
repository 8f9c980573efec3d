INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Judge
CONSTANTS
  G = 8
  Top = 255
  W = 8
