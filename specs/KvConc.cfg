INIT Init
NEXT NextC
