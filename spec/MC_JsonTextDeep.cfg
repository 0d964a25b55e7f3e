INIT Init
NEXT Next
INVARIANT RoundTrip Spaces Nested NoTail
CONSTANTS N = 6
Alphabet = {91, 93, 123, 125, 34, 58, 44, 49, 48, 45, 46, 101, 32}
