----------------------------- MODULE MC_JsonText -----------------------------
(* The grammar on its own: every value of a small universe is denoted by what *)
(* Write produces, reading is deterministic under added white space, and      *)
(* every accepted word over a small alphabet reads back from its own value.   *)
EXTENDS JsonText, TLC

CONSTANTS N, Alphabet

Texts == {<<>>, <<97>>, <<34>>, <<92>>, <<10>>, <<8232>>, <<128512>>, <<97, 92, 110>>}
Nums == {<<"n", s, d, e>> : s \in 0..1, d \in {<<0>>, <<7>>, <<1, 0>>, <<0, 2, 5>>}, e \in {-2, 0, 3}}
Atoms == {Null, BoolV(TRUE), BoolV(FALSE)} \cup {Str(t) : t \in Texts} \cup Nums
Flat == Atoms \cup {Arr(<<>>), Obj(<<>>, <<>>)} \cup {Arr(<<a>>) : a \in Atoms} \cup {Obj(<<k>>, <<a>>) : k \in Texts, a \in Atoms}


VARIABLE w
Init == w = <<>>
Next == /\ Len(w) < N
        /\ \E c \in Alphabet : w' = Append(w, c)

\* numbers keep a flag in parsed values; drop it
RECURSIVE Bare(_)
Bare(v) == CASE v[1] = "n" -> <<"n", v[2], v[3], v[4]>>
             [] v[1] = "a" -> Arr([i \in 1..Len(v[2]) |-> Bare(v[2][i])])
             [] v[1] = "o" -> Obj(v[2], [i \in 1..Len(v[3]) |-> Bare(v[3][i])])
             [] OTHER -> v

ASSUME \A v \in Flat : LET p == ParseText(Write(v)) IN p[1] = "ok" /\ JEq(Bare(p[2]), v)

Accepted == ParseText(w)[1] = "ok"
RoundTrip == Accepted => LET v == ParseText(w)[2]
                             p == ParseText(Write(Bare(v)))
                         IN p[1] = "ok" /\ (HasDup(v) \/ JEq(Bare(p[2]), Bare(v)))
\* white space around a text never matters
Spaces == LET q == ParseText(<<32, 9>> \o w \o <<10, 13>>) IN q = ParseText(w)
\* a text and the same text inside an array are accepted together (a lone comma list may only be so inside)
Nested == Accepted => ParseText(<<91>> \o w \o <<93>>)[1] = "ok"
\* no proper extension of an accepted container or string is accepted unless only white space was added
NoTail == (Accepted /\ w[1] \in {91, 123, 34}) => \A c \in Alphabet : ~IsWs(c) => ParseText(Append(w, c))[1] = "err"
\* rounding: exact small cases
F(x, lo, hi, even) == [x |-> x, lo |-> lo, hi |-> hi, even |-> even]
n(d, e) == <<"n", 0, d, e>>
ASSUME RoundsTo(n(<<1, 5>>, 0), F(n(<<1, 6>>, 0), n(<<1, 4>>, 0), n(<<1, 8>>, 0), TRUE))
ASSUME ~RoundsTo(n(<<1, 5>>, 0), F(n(<<1, 6>>, 0), n(<<1, 4>>, 0), n(<<1, 8>>, 0), FALSE))
ASSUME ~RoundsTo(n(<<1, 4, 9>>, -1), F(n(<<1, 6>>, 0), n(<<1, 4>>, 0), n(<<1, 8>>, 0), TRUE))
ASSUME RoundsTo(n(<<1, 5, 1>>, -1), F(n(<<1, 6>>, 0), n(<<1, 4>>, 0), n(<<1, 8>>, 0), FALSE))
=============================================================================
