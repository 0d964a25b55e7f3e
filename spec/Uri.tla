---------------------------------- MODULE Uri ----------------------------------
(* URI references (RFC 3986) over sequences of code points.  A reference is   *)
(* <<scheme, authority, path, query, fragment>>; a component is a sequence of *)
(* code points or None.  The path is always there, possibly empty.            *)
EXTENDS Integers, Sequences, FiniteSets

None == <<-1>>

IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsDig(c) == c >= 48 /\ c <= 57
IsSchemeChar(c) == IsAlpha(c) \/ IsDig(c) \/ c \in {43, 45, 46}

RECURSIVE Find(_, _, _)     \* first position >= i of a member of set S, or Len + 1
Find(t, S, i) == IF i > Len(t) \/ t[i] \in S THEN i ELSE Find(t, S, i + 1)

From(t, i) == SubSeq(t, i, Len(t))
Upto(t, i) == SubSeq(t, 1, i - 1)

\* Appendix B, with a scheme that has to be one
Parse(t) ==
    LET f == Find(t, {35}, 1)
        frag == IF f > Len(t) THEN None ELSE From(t, f + 1)
        a == Upto(t, f)
        q == Find(a, {63}, 1)
        query == IF q > Len(a) THEN None ELSE From(a, q + 1)
        b == Upto(a, q)
        c == Find(b, {58, 47}, 1)
        hasscheme == /\ c <= Len(b) /\ b[c] = 58 /\ c > 1 /\ IsAlpha(b[1])
                     /\ \A i \in 1..(c - 1) : IsSchemeChar(b[i])
        scheme == IF hasscheme THEN Upto(b, c) ELSE None
        d == IF hasscheme THEN From(b, c + 1) ELSE b
        hasauth == Len(d) >= 2 /\ d[1] = 47 /\ d[2] = 47
        s == Find(d, {47}, 3)
        auth == IF hasauth THEN SubSeq(d, 3, s - 1) ELSE None
        path == IF hasauth THEN From(d, s) ELSE d
    IN <<scheme, auth, path, query, frag>>

\* 5.3
Unsplit(u) ==
    (IF u[1] = None THEN <<>> ELSE u[1] \o <<58>>) \o
    (IF u[2] = None THEN <<>> ELSE <<47, 47>> \o u[2]) \o
    u[3] \o
    (IF u[4] = None THEN <<>> ELSE <<63>> \o u[4]) \o
    (IF u[5] = None THEN <<>> ELSE <<35>> \o u[5])

StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p

RECURSIVE LastOf(_, _, _)   \* last position <= i of character c, or 0
LastOf(t, c, i) == IF i = 0 \/ t[i] = c THEN i ELSE LastOf(t, c, i - 1)

\* 5.2.4
RECURSIVE Dots(_, _)
Dots(i, o) ==
    IF i = <<>> THEN o
    ELSE IF StartsWith(i, <<46, 46, 47>>) THEN Dots(From(i, 4), o)
    ELSE IF StartsWith(i, <<46, 47>>) THEN Dots(From(i, 3), o)
    ELSE IF StartsWith(i, <<47, 46, 47>>) THEN Dots(From(i, 3), o)
    ELSE IF i = <<47, 46>> THEN Dots(<<47>>, o)
    ELSE IF StartsWith(i, <<47, 46, 46, 47>>)
         THEN LET k == LastOf(o, 47, Len(o)) IN Dots(From(i, 4), IF k = 0 THEN <<>> ELSE Upto(o, k))
    ELSE IF i = <<47, 46, 46>>
         THEN LET k == LastOf(o, 47, Len(o)) IN Dots(<<47>>, IF k = 0 THEN <<>> ELSE Upto(o, k))
    ELSE IF i = <<46>> \/ i = <<46, 46>> THEN o
    ELSE LET e == Find(i, {47}, 2) IN Dots(From(i, e), o \o Upto(i, e))
RemoveDots(p) == Dots(p, <<>>)

\* 5.2.3
Merge(b, r) ==
    IF b[2] # None /\ b[3] = <<>> THEN <<47>> \o r
    ELSE SubSeq(b[3], 1, LastOf(b[3], 47, Len(b[3]))) \o r

\* 5.2.2; the base has a scheme
Resolve(b, r) ==
    IF r[1] # None THEN <<r[1], r[2], RemoveDots(r[3]), r[4], r[5]>>
    ELSE IF r[2] # None THEN <<b[1], r[2], RemoveDots(r[3]), r[4], r[5]>>
    ELSE IF r[3] = <<>> THEN <<b[1], b[2], b[3], IF r[4] # None THEN r[4] ELSE b[4], r[5]>>
    ELSE IF r[3][1] = 47 THEN <<b[1], b[2], RemoveDots(r[3]), r[4], r[5]>>
    ELSE <<b[1], b[2], RemoveDots(Merge(b, r[3])), r[4], r[5]>>

\* resolution as texts
ResolveText(b, t) == Unsplit(Resolve(Parse(b), Parse(t)))

(* ---------------------------- normal form, 6.2.2 ---------------------------- *)
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowT(t) == [i \in 1..Len(t) |-> Low(t[i])]
IsHexDig(c) == IsDig(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
Triplet(t, i) == i >= 1 /\ i + 2 <= Len(t) /\ t[i] = 37 /\ IsHexDig(t[i + 1]) /\ IsHexDig(t[i + 2])
PctUp(t) == [i \in 1..Len(t) |->
               IF (Triplet(t, i - 1) \/ Triplet(t, i - 2)) /\ t[i] >= 97 /\ t[i] <= 102 THEN t[i] - 32 ELSE t[i]]
\* userinfo keeps its case
NormAuth(a) ==
    LET k == LastOf(a, 64, Len(a))
    IN PctUp(Upto(a, k + 1)) \o LowT(From(a, k + 1))
Normal(u) ==
    <<IF u[1] = None THEN None ELSE LowT(u[1]),
      IF u[2] = None THEN None ELSE NormAuth(u[2]),
      RemoveDots(PctUp(u[3])),
      IF u[4] = None THEN None ELSE PctUp(u[4]),
      IF u[5] = None THEN None ELSE PctUp(u[5])>>
IsNormal(u) == u = Normal(u)

IsAbsolute(u) == u[1] # None /\ u[5] = None
HasAbsoluteBase(u) == u[1] # None
WithoutFragment(u) == [u EXCEPT ![5] = None]
=============================================================================
