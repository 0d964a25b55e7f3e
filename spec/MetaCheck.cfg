INIT MInit
NEXT MNext
