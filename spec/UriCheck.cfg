INIT UInit
NEXT UNext
