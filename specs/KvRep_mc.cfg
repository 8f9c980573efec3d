CONSTANTS MaxLog = 3
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Mono
