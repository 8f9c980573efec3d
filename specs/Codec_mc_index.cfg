SPECIFICATION Spec
INVARIANT Ok
CHECK_DEADLOCK FALSE
CONSTANTS
  G = 2
  Top = 3
  W = 2
  MaxLen = 1
  Kind = "index"
