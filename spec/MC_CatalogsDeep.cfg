INIT Init
NEXT Next
CONSTANTS
  MaxOps = 4
  Versions <- AllVersions
  Slim = FALSE
INVARIANTS Latest Out
PROPERTIES Independent OthersShow FailKeeps Stays
