---------------------------------- MODULE MC_Uri ----------------------------------
(* The URI specification on its own: every text over a small alphabet that    *)
(* reads as a reference is put together again; resolution is idempotent,      *)
(* yields absolute dot-free targets, and agrees with the examples of RFC 3986.*)
EXTENDS Uri, TLC

CONSTANTS N, Alphabet

VARIABLE t
Init == t = <<>>
Next == Len(t) < N /\ \E c \in Alphabet : t' = Append(t, c)

P == Parse(t)
RoundTrip == Unsplit(P) = t
\* http://a/b/c/d;p?q
B0 == <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 100, 59, 112, 63, 113>>
B1 == <<104, 58, 47, 47, 97>>               \* h://a
B2 == <<104, 58, 47, 98, 47, 99>>           \* h:/b/c
Targets == \A b \in {B0, B1, B2} :
    LET x == Resolve(Parse(b), P)
    IN /\ x[1] # None
       /\ x[5] = P[5]
       /\ Resolve(Parse(b), x) = x                       \* a target resolves to itself
       /\ RemoveDots(x[3]) = x[3]
       /\ x = Resolve(WithoutFragment(Parse(b)), P)
NormalIdem == Normal(Normal(P)) = Normal(P)

\* 5.4.1, 5.4.2 (strict)
Ex(r, want) == ResolveText(B0, r) = want
A == <<104, 116, 116, 112, 58, 47, 47, 97>>              \* http://a
ASSUME Ex(<<103, 58, 104>>, <<103, 58, 104>>)                                        \* g:h
ASSUME Ex(<<103>>, A \o <<47, 98, 47, 99, 47, 103>>)                                 \* g
ASSUME Ex(<<46, 47, 103>>, A \o <<47, 98, 47, 99, 47, 103>>)                         \* ./g
ASSUME Ex(<<103, 47>>, A \o <<47, 98, 47, 99, 47, 103, 47>>)                         \* g/
ASSUME Ex(<<47, 103>>, A \o <<47, 103>>)                                             \* /g
ASSUME Ex(<<47, 47, 103>>, <<104, 116, 116, 112, 58, 47, 47, 103>>)                  \* //g
ASSUME Ex(<<63, 121>>, A \o <<47, 98, 47, 99, 47, 100, 59, 112, 63, 121>>)           \* ?y
ASSUME Ex(<<103, 63, 121>>, A \o <<47, 98, 47, 99, 47, 103, 63, 121>>)               \* g?y
ASSUME Ex(<<35, 115>>, B0 \o <<35, 115>>)                                            \* #s
ASSUME Ex(<<59, 120>>, A \o <<47, 98, 47, 99, 47, 59, 120>>)                         \* ;x
ASSUME Ex(<<>>, B0)
ASSUME Ex(<<46>>, A \o <<47, 98, 47, 99, 47>>)                                       \* .
ASSUME Ex(<<46, 46>>, A \o <<47, 98, 47>>)                                           \* ..
ASSUME Ex(<<46, 46, 47, 103>>, A \o <<47, 98, 47, 103>>)                             \* ../g
ASSUME Ex(<<46, 46, 47, 46, 46>>, A \o <<47>>)                                       \* ../..
ASSUME Ex(<<46, 46, 47, 46, 46, 47, 46, 46, 47, 103>>, A \o <<47, 103>>)             \* ../../../g
ASSUME Ex(<<103, 46>>, A \o <<47, 98, 47, 99, 47, 103, 46>>)                         \* g.
ASSUME Ex(<<46, 46, 103>>, A \o <<47, 98, 47, 99, 47, 46, 46, 103>>)                 \* ..g
ASSUME Ex(<<103, 47, 46, 46, 47, 104>>, A \o <<47, 98, 47, 99, 47, 104>>)            \* g/../h
=============================================================================
