INIT FInit
NEXT ONext
