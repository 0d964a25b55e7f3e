INIT Init
NEXT Next
CONSTANTS
  MaxOps = 3
  Versions <- AllVersions
  Slim = TRUE
INVARIANTS Latest Out
PROPERTIES Independent OthersShow FailKeeps Stays
