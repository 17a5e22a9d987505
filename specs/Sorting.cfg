INIT SInit
NEXT SNext
CHECK_DEADLOCK FALSE
