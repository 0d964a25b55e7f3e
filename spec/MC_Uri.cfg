INIT Init
NEXT Next
INVARIANT RoundTrip Targets NormalIdem
CONSTANTS N = 5
Alphabet = {97, 65, 47, 58, 63, 35, 46}
