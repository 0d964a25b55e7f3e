INIT VInit
NEXT VNext
