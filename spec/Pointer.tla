------------------------------- MODULE Pointer -------------------------------
(* RFC 6901 JSON Pointers and Relative JSON Pointers over code point          *)
(* sequences.  A pointer is a sequence of unescaped keys.                     *)
EXTENDS JM

Tilde == 126
Slash == 47
C0 == 48
C1 == 49
Digits == 48..57

Ok(x) == <<"ok", x>>
Err == <<"err">>

\* ---- text form
ValidPtrText(s) ==
    \/ s = <<>>
    \/ /\ s[1] = Slash
       /\ \A i \in 1..Len(s) : s[i] = Tilde => i < Len(s) /\ s[i + 1] \in {C0, C1}

RECURSIVE Unescape(_)
Unescape(t) ==
    IF t = <<>> THEN <<>>
    ELSE IF Head(t) = Tilde THEN <<(IF t[2] = C0 THEN Tilde ELSE Slash)>> \o Unescape(SubSeq(t, 3, Len(t)))
    ELSE <<Head(t)>> \o Unescape(Tail(t))

RECURSIVE Escape(_)
Escape(k) ==
    IF k = <<>> THEN <<>>
    ELSE (IF Head(k) = Tilde THEN <<Tilde, C0>> ELSE IF Head(k) = Slash THEN <<Tilde, C1>> ELSE <<Head(k)>>)
         \o Escape(Tail(k))

\* the escaped tokens of a valid pointer text
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, i, cur, acc) ==
    IF i > Len(s) THEN Append(acc, cur)
    ELSE IF s[i] = Slash THEN SplitFrom(s, i + 1, <<>>, Append(acc, cur))
    ELSE SplitFrom(s, i + 1, Append(cur, s[i]), acc)
Tokens(s) == IF s = <<>> THEN <<>> ELSE SplitFrom(s, 2, <<>>, <<>>)

Parse(s) ==
    IF ~ValidPtrText(s) THEN Err
    ELSE LET t == Tokens(s) IN Ok([i \in 1..Len(t) |-> Unescape(t[i])])

RECURSIVE Text(_)
Text(p) == IF p = <<>> THEN <<>> ELSE <<Slash>> \o Escape(Head(p)) \o Text(Tail(p))

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]
IsProperPrefixOf(p, q) == Len(p) < Len(q) /\ IsPrefixOf(p, q)

\* ---- URI fragment form (RFC 3986 section 3.5): pchar / "/" / "?"
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Unreserved == (65..90) \cup (97..122) \cup Digits \cup {45, 46, 95, 126}
SubDelims == {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
FragChars == Unreserved \cup SubDelims \cup {58, 64, 47, 63}
IsPct(s, i) == s[i] = 37 /\ i + 2 <= Len(s) /\ HexVal(s[i + 1]) >= 0 /\ HexVal(s[i + 2]) >= 0
ValidFragment(s) ==
    \A i \in 1..Len(s) : s[i] \in FragChars \/ IsPct(s, i)

\* percent-decoding to octets, then UTF-8
RECURSIVE Octets(_, _)
Utf8(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Octets(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF IsPct(s, i) THEN <<HexVal(s[i + 1]) * 16 + HexVal(s[i + 2])>> \o Octets(s, i + 3)
    ELSE Utf8(s[i]) \o Octets(s, i + 1)

Cont(o, i) == IF i <= Len(o) /\ o[i] \in 128..191 THEN o[i] - 128 ELSE -1
\* the code points of a UTF-8 octet sequence; -1 marks ill-formed input
RECURSIVE FromUtf8(_, _)
FromUtf8(o, i) ==
    IF i > Len(o) THEN <<>>
    ELSE IF o[i] < 128 THEN <<o[i]>> \o FromUtf8(o, i + 1)
    ELSE IF o[i] \in 194..223 /\ Cont(o, i + 1) >= 0
         THEN <<(o[i] - 192) * 64 + Cont(o, i + 1)>> \o FromUtf8(o, i + 2)
    ELSE IF o[i] \in 224..239 /\ Cont(o, i + 1) >= 0 /\ Cont(o, i + 2) >= 0
         THEN <<(o[i] - 224) * 4096 + Cont(o, i + 1) * 64 + Cont(o, i + 2)>> \o FromUtf8(o, i + 3)
    ELSE IF o[i] \in 240..244 /\ Cont(o, i + 1) >= 0 /\ Cont(o, i + 2) >= 0 /\ Cont(o, i + 3) >= 0
         THEN <<(o[i] - 240) * 262144 + Cont(o, i + 1) * 4096 + Cont(o, i + 2) * 64 + Cont(o, i + 3)>>
              \o FromUtf8(o, i + 4)
    ELSE <<-1>>
PctDecode(s) == FromUtf8(Octets(s, 1), 1)

\* ---- array indices
IsIndexToken(t) ==
    /\ t # <<>>
    /\ \A i \in 1..Len(t) : t[i] \in Digits
    /\ (t[1] = C0 => Len(t) = 1)
RECURSIVE DecVal(_, _)
DecVal(t, acc) == IF t = <<>> THEN acc ELSE DecVal(Tail(t), acc * 10 + Head(t) - 48)
Huge == 1000000000
IndexVal(t) == IF Len(t) > 9 THEN Huge ELSE DecVal(t, 0)
IndexToken(n) ==
    LET RECURSIVE D(_)
        D(m) == IF m < 10 THEN <<48 + m>> ELSE Append(D(m \div 10), 48 + (m % 10))
    IN D(n)

\* ---- evaluation
Child(v, t) ==
    IF IsObj(v) /\ HasKey(v, t) THEN Ok(Member(v, t))
    ELSE IF IsArr(v) /\ IsIndexToken(t) /\ IndexVal(t) < Len(v[2]) THEN Ok(v[2][IndexVal(t) + 1])
    ELSE Err

RECURSIVE Eval(_, _)
Eval(v, p) ==
    IF p = <<>> THEN Ok(v)
    ELSE LET c == Child(v, Head(p)) IN IF c = Err THEN Err ELSE Eval(c[2], Tail(p))

Resolves(v, p) == Eval(v, p) # Err

\* every location in a document
RECURSIVE Locations(_)
Locations(v) ==
    {<<>>} \cup
    (IF IsArr(v) THEN UNION {{<<IndexToken(i - 1)>> \o q : q \in Locations(v[2][i])} : i \in 1..Len(v[2])}
     ELSE IF IsObj(v) THEN UNION {{<<v[2][i]>> \o q : q \in Locations(v[3][i])} : i \in 1..Len(v[2])}
     ELSE {})

\* ---- Relative JSON Pointers: up [over] ("#" / pointer)
RECURSIVE DigitRun(_, _)
DigitRun(s, i) == IF i <= Len(s) /\ s[i] \in Digits THEN DigitRun(s, i + 1) ELSE i   \* first non-digit

Hash == 35
Plus == 43
Minus == 45

\* <<"ok", [up |-> digits, over |-> <<sign, digits>> or <<>>, hash |-> BOOLEAN, ptr |-> keys]>> or Err
RelParse(s) ==
    LET j == DigitRun(s, 1)
        up == SubSeq(s, 1, j - 1)
        signed == j <= Len(s) /\ s[j] \in {Plus, Minus}
        k == IF signed THEN DigitRun(s, j + 1) ELSE j
        odig == IF signed THEN SubSeq(s, j + 1, k - 1) ELSE <<>>
        rest == SubSeq(s, k, Len(s))
    IN IF ~IsIndexToken(up) THEN Err
       ELSE IF signed /\ (odig = <<>> \/ odig[1] = C0) THEN Err
       ELSE IF rest = <<Hash>> THEN Ok([up |-> up, over |-> IF signed THEN <<s[j], odig>> ELSE <<>>, hash |-> TRUE, ptr |-> <<>>])
       ELSE IF ~ValidPtrText(rest) THEN Err
       ELSE Ok([up |-> up, over |-> IF signed THEN <<s[j], odig>> ELSE <<>>, hash |-> FALSE, ptr |-> Parse(rest)[2]])

RelText(r) ==
    r.up \o (IF r.over = <<>> THEN <<>> ELSE <<r.over[1]>> \o r.over[2]) \o
    (IF r.hash THEN <<Hash>> ELSE Text(r.ptr))

ParentOf(p) == SubSeq(p, 1, Len(p) - 1)

\* Evaluation at location p of document v.  Outcomes: Err, <<"index", n>>, <<"key", k>>, <<"node", location>>
RelEval(v, p, r) ==
    LET up == IndexVal(r.up)
    IN IF up > Len(p) THEN Err
       ELSE LET q == SubSeq(p, 1, Len(p) - up)
                atRoot == q = <<>>
                par == Eval(v, ParentOf(q))[2]
                off == IF r.over = <<>> THEN 0 ELSE IndexVal(r.over[2])
                ix == IF r.over[1] = Plus THEN IndexVal(q[Len(q)]) + off ELSE IndexVal(q[Len(q)]) - off
                adj == IF r.over = <<>> THEN Ok(q)
                       ELSE IF atRoot THEN Err
                       ELSE IF ~IsArr(par) THEN Err
                       ELSE IF ix < 0 \/ ix >= Len(par[2]) THEN Err
                       ELSE Ok(Append(ParentOf(q), IndexToken(ix)))
            IN IF adj = Err THEN Err
               ELSE LET a == adj[2]
                    IN IF r.hash
                       THEN IF a = <<>> THEN Err
                            ELSE IF IsArr(par) THEN <<"index", IndexVal(a[Len(a)])>>
                            ELSE <<"key", a[Len(a)]>>
                       ELSE IF Resolves(v, a \o r.ptr) THEN <<"node", a \o r.ptr>>
                            ELSE Err
=============================================================================
