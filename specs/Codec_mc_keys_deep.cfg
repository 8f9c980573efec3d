SPECIFICATION Spec
INVARIANT Ok
CHECK_DEADLOCK FALSE
CONSTANTS
  G = 3
  Top = 3
  W = 1
  MaxLen = 5
  Kind = "keys"
