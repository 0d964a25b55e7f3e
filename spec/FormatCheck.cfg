INIT FoInit
NEXT FoNext
