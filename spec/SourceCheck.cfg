INIT SInit
NEXT SNext
