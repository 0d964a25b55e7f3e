------------------------------- MODULE JsonText -------------------------------
(* The JSON grammar (RFC 8259) over sequences of code points: the value a     *)
(* text denotes, or an error.  Numbers are denoted exactly; strings are       *)
(* sequences of code points, a \uXXXX\uYYYY surrogate pair being one of them. *)
EXTENDS JM

PErr == <<"err">>
POk(v, i) == <<"ok", v, i>>        \* value v was read; the text goes on at i

At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
IsWs(c) == c \in {32, 9, 10, 13}
IsDigit(c) == c >= 48 /\ c <= 57

RECURSIVE SkipWs(_, _)
SkipWs(t, i) == IF IsWs(At(t, i)) THEN SkipWs(t, i + 1) ELSE i

RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF IsDigit(At(t, i)) THEN DigitsEnd(t, i + 1) ELSE i

DigitsOf(t, i, j) == [k \in 1..(j - i) |-> t[i + k - 1] - 48]

\* decimal exponents are capped far outside the range of any double or test
RECURSIVE ToInt(_, _)
ToInt(d, acc) == IF d = <<>> THEN acc ELSE ToInt(Tail(d), acc * 10 + Head(d))
Capped(d) == LET e == DropLeading(d) IN IF Len(e) > 7 THEN 10000000 ELSE ToInt(e, 0)

PNumber(t, i0) ==
    LET neg == At(t, i0) = 45
        i == IF neg THEN i0 + 1 ELSE i0
        j == IF At(t, i) = 48 THEN i + 1 ELSE DigitsEnd(t, i)      \* integer part
        hasfrac == At(t, j) = 46 /\ IsDigit(At(t, j + 1))
        k == IF hasfrac THEN DigitsEnd(t, j + 1) ELSE j
        s == IF At(t, k + 1) \in {43, 45} THEN k + 2 ELSE k + 1
        hasexp == At(t, k) \in {69, 101} /\ IsDigit(At(t, s))
        m == IF hasexp THEN DigitsEnd(t, s) ELSE k
        frac == IF hasfrac THEN DigitsOf(t, j + 1, k) ELSE <<>>
        e == IF hasexp THEN Capped(DigitsOf(t, s, m)) * (IF At(t, k + 1) = 45 THEN -1 ELSE 1) ELSE 0
    IN IF ~IsDigit(At(t, i)) THEN PErr
       ELSE POk(<<"n", IF neg THEN 1 ELSE 0, DigitsOf(t, i, j) \o frac, e - Len(frac), hasfrac \/ hasexp>>, m)

Hex(c) == IF c >= 48 /\ c <= 57 THEN c - 48
          ELSE IF c >= 97 /\ c <= 102 THEN c - 87
          ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Hex4(t, i) ==
    IF \A k \in 0..3 : Hex(At(t, i + k)) >= 0
    THEN Hex(At(t, i)) * 4096 + Hex(At(t, i + 1)) * 256 + Hex(At(t, i + 2)) * 16 + Hex(At(t, i + 3))
    ELSE -1

Escaped == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |->
              CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]

\* the characters of a string from i, up to and including the closing quote
RECURSIVE PChars(_, _, _)
PChars(t, i, acc) ==
    LET c == At(t, i)
    IN IF c < 32 THEN PErr
       ELSE IF c = 34 THEN POk(Str(acc), i + 1)
       ELSE IF c # 92 THEN PChars(t, i + 1, Append(acc, c))
       ELSE IF At(t, i + 1) \in DOMAIN Escaped THEN PChars(t, i + 2, Append(acc, Escaped[At(t, i + 1)]))
       ELSE IF At(t, i + 1) = 117 THEN
            LET u == Hex4(t, i + 2)
                w == IF At(t, i + 6) = 92 /\ At(t, i + 7) = 117 THEN Hex4(t, i + 8) ELSE -1
            IN IF u < 0 THEN PErr
               ELSE IF u >= 55296 /\ u <= 56319 /\ w >= 56320 /\ w <= 57343
                    THEN PChars(t, i + 12, Append(acc, 65536 + (u - 55296) * 1024 + (w - 56320)))
                    ELSE PChars(t, i + 6, Append(acc, u))
       ELSE PErr

Literal(t, i, w) == /\ i + Len(w) - 1 <= Len(t)
                    /\ SubSeq(t, i, i + Len(w) - 1) = w
LNull == <<110, 117, 108, 108>>
LTrue == <<116, 114, 117, 101>>
LFalse == <<102, 97, 108, 115, 101>>

RECURSIVE PValue(_, _), PItems(_, _, _), PMembers(_, _, _, _)
PValue(t, i0) ==
    LET i == SkipWs(t, i0)
        c == At(t, i)
        j == SkipWs(t, i + 1)
    IN CASE c = 91 -> IF At(t, j) = 93 THEN POk(Arr(<<>>), j + 1) ELSE PItems(t, i + 1, <<>>)
         [] c = 123 -> IF At(t, j) = 125 THEN POk(Obj(<<>>, <<>>), j + 1) ELSE PMembers(t, i + 1, <<>>, <<>>)
         [] c = 34 -> PChars(t, i + 1, <<>>)
         [] c = 45 \/ IsDigit(c) -> PNumber(t, i)
         [] c = 110 /\ Literal(t, i, LNull) -> POk(Null, i + 4)
         [] c = 116 /\ Literal(t, i, LTrue) -> POk(BoolV(TRUE), i + 4)
         [] c = 102 /\ Literal(t, i, LFalse) -> POk(BoolV(FALSE), i + 5)
         [] OTHER -> PErr
PItems(t, i, acc) ==
    LET x == PValue(t, i)
    IN IF x = PErr THEN PErr
       ELSE LET j == SkipWs(t, x[3])
                a == Append(acc, x[2])
            IN IF At(t, j) = 93 THEN POk(Arr(a), j + 1)
               ELSE IF At(t, j) = 44 THEN PItems(t, j + 1, a)
               ELSE PErr
PMembers(t, i0, ks, vs) ==
    LET i == SkipWs(t, i0)
        k == IF At(t, i) = 34 THEN PChars(t, i + 1, <<>>) ELSE PErr
    IN IF k = PErr THEN PErr
       ELSE LET c == SkipWs(t, k[3])
            IN IF At(t, c) # 58 THEN PErr
               ELSE LET x == PValue(t, c + 1)
                    IN IF x = PErr THEN PErr
                       ELSE LET j == SkipWs(t, x[3])
                                ks2 == Append(ks, k[2][2])
                                vs2 == Append(vs, x[2])
                            IN IF At(t, j) = 125 THEN POk(Obj(ks2, vs2), j + 1)
                               ELSE IF At(t, j) = 44 THEN PMembers(t, j + 1, ks2, vs2)
                               ELSE PErr

\* <<"ok", value>> or <<"err">>
ParseText(t) ==
    LET x == PValue(t, 1)
    IN IF x = PErr \/ SkipWs(t, x[3]) # Len(t) + 1 THEN PErr ELSE <<"ok", x[2]>>

RECURSIVE HasDup(_)
HasDup(v) ==
    CASE v[1] = "a" -> \E i \in 1..Len(v[2]) : HasDup(v[2][i])
      [] v[1] = "o" -> \/ \E i, j \in 1..Len(v[2]) : i < j /\ v[2][i] = v[2][j]
                       \/ \E i \in 1..Len(v[3]) : HasDup(v[3][i])
      [] OTHER -> FALSE

(* ------------------------- rounding to a double ------------------------- *)
Zeros(n) == [i \in 1..n |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* sum of two equally long digit sequences, with carry
RECURSIVE AddDigits(_, _, _, _, _)
AddDigits(a, b, i, carry, acc) ==
    IF i = 0 THEN IF carry = 0 THEN acc ELSE <<carry>> \o acc
    ELSE LET s == a[i] + b[i] + carry
         IN AddDigits(a, b, i - 1, s \div 10, <<s % 10>> \o acc)

\* sum of two magnitudes (signs ignored)
AddMag(x, y) ==
    LET a == Norm(x)
        b == Norm(y)
        e == Min(a[4], b[4])
        da == a[3] \o Zeros(a[4] - e)
        db == b[3] \o Zeros(b[4] - e)
        n == Max(Len(da), Len(db))
        pa == Zeros(n - Len(da)) \o da
        pb == Zeros(n - Len(db)) \o db
    IN IF a[3] = <<>> THEN <<"n", 0, b[3], b[4]>>
       ELSE IF b[3] = <<>> THEN <<"n", 0, a[3], a[4]>>
       ELSE <<"n", 0, AddDigits(pa, pb, n, 0, <<>>), e>>

Mag(x) == <<"n", 0, x[3], x[4]>>

\* numbers far apart are compared by magnitude without adding them up
OrderOf(x) == LET a == Norm(x) IN IF a[3] = <<>> THEN -20000000 ELSE Len(a[3]) + a[4]

\* a double as [x, lo, hi, even]: its exact value, the magnitudes of its neighbours towards zero and infinity,
\* and whether its last mantissa bit is 0.  Does the number t round to it (nearest, ties to even)?
RoundsTo(t, f) ==
    LET neg == Norm(t)[2] = 1
        far == OrderOf(t) > OrderOf(f.hi) + 1 \/ OrderOf(t) < OrderOf(f.lo) - 1
        tt == AddMag(t, t)
        low == NumCmp(tt, AddMag(f.lo, f.x))
        high == NumCmp(tt, AddMag(f.x, f.hi))
        zero == Norm(f.x)[3] = <<>>
    IN /\ ~far \/ (zero /\ OrderOf(t) < -400)
       /\ IF zero THEN OrderOf(t) < -400 \/ NumCmp(tt, f.hi) <= 0
          ELSE /\ neg = (Norm(f.x)[2] = 1)
               /\ low > 0 \/ (low = 0 /\ f.even)
               /\ high < 0 \/ (high = 0 /\ f.even)

\* beyond every double: at least halfway between the largest one and 2^1024
TooLarge(t, max, top) ==
    \/ OrderOf(t) > 400
    \/ OrderOf(t) > 300 /\ NumCmp(AddMag(t, t), AddMag(max, top)) >= 0

\* does the value v observed in the program denote what the text's value t says?  Program numbers are exact
\* integers <<"n", ..>> or doubles <<"f", double>>
RECURSIVE Denotes(_, _)
Denotes(t, v) ==
    CASE t[1] = "n" -> IF v[1] = "n" THEN NumEq(<<"n", t[2], t[3], t[4]>>, v)
                       ELSE v[1] = "f" /\ RoundsTo(t, v[2]) /\ (t[5] \/ NumEq(<<"n", t[2], t[3], t[4]>>, v[2].x))
      [] t[1] = "a" -> v[1] = "a" /\ Len(v[2]) = Len(t[2]) /\ \A i \in 1..Len(t[2]) : Denotes(t[2][i], v[2][i])
      [] t[1] = "o" -> /\ v[1] = "o" /\ Len(v[2]) = Len(t[2])
                       /\ \A i \in 1..Len(t[2]) : LET j == KeyIx(v[2], t[2][i]) IN j # 0 /\ Denotes(t[3][i], v[3][j])
      [] OTHER -> t = v

RECURSIVE AnyTooLarge(_, _, _)
AnyTooLarge(t, max, top) ==
    CASE t[1] = "n" -> t[5] /\ TooLarge(t, max, top)
      [] t[1] = "a" -> \E i \in 1..Len(t[2]) : AnyTooLarge(t[2][i], max, top)
      [] t[1] = "o" -> \E i \in 1..Len(t[3]) : AnyTooLarge(t[3][i], max, top)
      [] OTHER -> FALSE

(* ------------------------------- writing ------------------------------- *)
\* one text that denotes v, for the round-trip theorem
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Esc(c) ==
    IF c = 34 THEN <<92, 34>> ELSE IF c = 92 THEN <<92, 92>>
    ELSE IF c < 32 THEN <<92, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
    ELSE <<c>>
RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Cat(ss, i + 1)
RECURSIVE Join(_, _)
Join(ss, i) == IF i > Len(ss) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<44>>) \o ss[i] \o Join(ss, i + 1)
WStr(s) == <<34>> \o Cat([i \in 1..Len(s) |-> Esc(s[i])], 1) \o <<34>>
WNat(n) == LET d == NatNum(n)[3] IN [i \in 1..Len(d) |-> 48 + d[i]]
RECURSIVE Write(_)
Write(v) ==
    CASE v[1] = "z" -> LNull
      [] v[1] = "b" -> IF v[2] THEN LTrue ELSE LFalse
      [] v[1] = "n" -> LET c == Norm(v)
                           d == IF c[3] = <<>> THEN <<48>> ELSE [i \in 1..Len(c[3]) |-> 48 + c[3][i]]
                       IN (IF c[2] = 1 THEN <<45>> ELSE <<>>) \o d \o
                          (IF c[4] = 0 THEN <<>> ELSE IF c[4] > 0 THEN <<101>> \o WNat(c[4]) ELSE <<101, 45>> \o WNat(-c[4]))
      [] v[1] = "s" -> WStr(v[2])
      [] v[1] = "a" -> <<91>> \o Join([i \in 1..Len(v[2]) |-> Write(v[2][i])], 1) \o <<93>>
      [] v[1] = "o" -> <<123>> \o Join([i \in 1..Len(v[2]) |-> WStr(v[2][i]) \o <<58>> \o Write(v[3][i])], 1) \o <<125>>

\* UTF-8 (RFC 3629): the code points that bytes b from the i-th on encode, or PErr.  Shortest forms only, no surrogates.
Trail(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] < 192
RECURSIVE Utf8From(_, _, _)
Utf8From(b, i, acc) ==
    IF i > Len(b) THEN <<"ok", acc>>
    ELSE LET x == b[i]
             n == IF x < 128 THEN 1 ELSE IF x < 192 THEN 0 ELSE IF x < 224 THEN 2 ELSE IF x < 240 THEN 3 ELSE IF x < 248 THEN 4 ELSE 0
             t(k) == b[i + k] % 64
         IN IF n = 0 \/ \E k \in 1..n - 1 : ~Trail(b, i + k) THEN PErr
            ELSE LET c == CASE n = 1 -> x
                            [] n = 2 -> (x % 32) * 64 + t(1)
                            [] n = 3 -> (x % 16) * 4096 + t(1) * 64 + t(2)
                            [] n = 4 -> (x % 8) * 262144 + t(1) * 4096 + t(2) * 64 + t(3)
                     least == <<0, 128, 2048, 65536>>[n]
                 IN IF c < least \/ c > 1114111 \/ (c >= 55296 /\ c < 57344) THEN PErr
                    ELSE Utf8From(b, i + n, Append(acc, c))
Utf8(b) == Utf8From(b, 1, <<>>)
=============================================================================
