INIT Init
NEXT NextWidth
CHECK_DEADLOCK FALSE
