SPECIFICATION Spec
INVARIANT Ok
CHECK_DEADLOCK FALSE
CONSTANTS
  G = 2
  Top = 3
  W = 1
  MaxLen = 1
  Kind = "any"
