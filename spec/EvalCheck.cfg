INIT EInit
NEXT ENext
