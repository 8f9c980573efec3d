CONSTANTS NT = 2
MaxTs = 6
Kind = "async"
Keys2 = 2
SPECIFICATION Spec
INVARIANT Inv
