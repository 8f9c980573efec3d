CONSTANTS NT = 2
MaxTs = 6
Kind = "2pc"
Keys2 = 2
SPECIFICATION Spec
INVARIANT Inv
