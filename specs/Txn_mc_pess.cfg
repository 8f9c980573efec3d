CONSTANTS NT = 2
MaxTs = 6
Kind = "pess"
Keys2 = 2
SPECIFICATION Spec
INVARIANT Inv
