---------------------------------- MODULE JM ----------------------------------
(* The JSON data model.  A value is a tagged tuple                            *)
(*   <<"z">>  null                <<"b", bool>>                               *)
(*   <<"n", neg, digits, exp>>    the number (-1)^neg * 0.d1d2.. style:       *)
(*                                digits as an integer, times 10^exp          *)
(*   <<"s", text>>                text: a sequence of code points             *)
(*   <<"a", items>>               <<"o", keys, vals>>                         *)
(* Numbers are decimal and unbounded: no arithmetic beyond the 32-bit         *)
(* integers of TLC is ever needed.                                            *)
EXTENDS Integers, Sequences, FiniteSets

Null == <<"z">>
BoolV(b) == <<"b", b>>
Str(t) == <<"s", t>>
Arr(s) == <<"a", s>>
Obj(ks, vs) == <<"o", ks, vs>>
NatNum(n) == \* small non-negative integers
    LET RECURSIVE D(_)
        D(m) == IF m < 10 THEN <<m>> ELSE Append(D(m \div 10), m % 10)
    IN <<"n", 0, D(n), 0>>

IsArr(v) == v[1] = "a"
IsObj(v) == v[1] = "o"
IsStr(v) == v[1] = "s"
IsNum(v) == v[1] = "n"
IsBool(v) == v[1] = "b"
IsNull(v) == v[1] = "z"

TypeName(v) ==
    CASE v[1] = "z" -> "null" [] v[1] = "b" -> "boolean" [] v[1] = "n" -> "number"
      [] v[1] = "s" -> "string" [] v[1] = "a" -> "array" [] v[1] = "o" -> "object"

(* ------------------------------- numbers ------------------------------- *)
RECURSIVE DropLeading(_), DropTrailing(_, _)
DropLeading(d) == IF d # <<>> /\ Head(d) = 0 THEN DropLeading(Tail(d)) ELSE d
DropTrailing(d, e) ==
    IF d # <<>> /\ d[Len(d)] = 0 THEN DropTrailing(SubSeq(d, 1, Len(d) - 1), e + 1) ELSE <<d, e>>

\* canonical form: no leading or trailing zero digit; zero is <<"n", 0, <<>>, 0>>
Norm(n) ==
    LET t == DropTrailing(DropLeading(n[3]), n[4])
    IN IF t[1] = <<>> THEN <<"n", 0, <<>>, 0>> ELSE <<"n", n[2], t[1], t[2]>>

RECURSIVE LexCmp(_, _, _)
DigitAt(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
LexCmp(a, b, i) ==
    IF i > Len(a) /\ i > Len(b) THEN 0
    ELSE IF DigitAt(a, i) < DigitAt(b, i) THEN -1
    ELSE IF DigitAt(a, i) > DigitAt(b, i) THEN 1
    ELSE LexCmp(a, b, i + 1)

\* magnitudes of canonical numbers
CmpMag(a, b) ==
    IF a[3] = <<>> /\ b[3] = <<>> THEN 0
    ELSE IF a[3] = <<>> THEN -1
    ELSE IF b[3] = <<>> THEN 1
    ELSE LET ea == Len(a[3]) + a[4]
             eb == Len(b[3]) + b[4]
         IN IF ea < eb THEN -1 ELSE IF ea > eb THEN 1 ELSE LexCmp(a[3], b[3], 1)

NumCmp(x, y) ==
    LET a == Norm(x)
        b == Norm(y)
        sa == IF a[3] = <<>> THEN 0 ELSE IF a[2] = 1 THEN -1 ELSE 1
        sb == IF b[3] = <<>> THEN 0 ELSE IF b[2] = 1 THEN -1 ELSE 1
    IN IF sa < sb THEN -1 ELSE IF sa > sb THEN 1
       ELSE IF sa = 0 THEN 0
       ELSE IF sa = 1 THEN CmpMag(a, b) ELSE CmpMag(b, a)

NumEq(x, y) == NumCmp(x, y) = 0

IsInteger(n) == Norm(n)[4] >= 0

\* the value of a number when it is an integer below 10^9, else -1
SmallNat(n) ==
    LET c == Norm(n)
        RECURSIVE V(_, _)
        V(d, acc) == IF d = <<>> THEN acc ELSE V(Tail(d), acc * 10 + Head(d))
        RECURSIVE Z(_, _)
        Z(k, acc) == IF k = 0 THEN acc ELSE Z(k - 1, acc * 10)
    IN IF c[3] = <<>> THEN 0
       ELSE IF c[2] = 1 \/ c[4] < 0 \/ Len(c[3]) + c[4] > 9 THEN -1
       ELSE Z(c[4], V(c[3], 0))

(* ------------------------------- equality ------------------------------- *)
KeyIx(ks, k) ==
    LET S == {i \in 1..Len(ks) : ks[i] = k}
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

HasKey(o, k) == KeyIx(o[2], k) # 0
Member(o, k) == o[3][KeyIx(o[2], k)]

RECURSIVE JEq(_, _)
JEq(a, b) ==
    /\ a[1] = b[1]
    /\ CASE a[1] = "z" -> TRUE
         [] a[1] = "b" -> a[2] = b[2]
         [] a[1] = "n" -> NumEq(a, b)
         [] a[1] = "s" -> a[2] = b[2]
         [] a[1] = "a" -> /\ Len(a[2]) = Len(b[2])
                          /\ \A i \in 1..Len(a[2]) : JEq(a[2][i], b[2][i])
         [] a[1] = "o" -> /\ Len(a[2]) = Len(b[2])
                          /\ \A i \in 1..Len(a[2]) :
                                LET j == KeyIx(b[2], a[2][i])
                                IN j # 0 /\ JEq(a[3][i], b[3][j])
         [] OTHER -> FALSE

\* text order by code points
RECURSIVE TextCmp(_, _, _)
TextCmp(a, b, i) ==
    IF i > Len(a) /\ i > Len(b) THEN 0
    ELSE IF i > Len(a) THEN -1 ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1
    ELSE TextCmp(a, b, i + 1)

(* ------------------------------- editing ------------------------------- *)
InsertAtIx(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RemoveAtIx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

SetMember(o, k, v) ==
    LET i == KeyIx(o[2], k)
    IN IF i = 0 THEN Obj(Append(o[2], k), Append(o[3], v))
       ELSE Obj(o[2], [o[3] EXCEPT ![i] = v])
DelMember(o, k) ==
    LET i == KeyIx(o[2], k) IN Obj(RemoveAtIx(o[2], i), RemoveAtIx(o[3], i))

\* well-formed: distinct member names
RECURSIVE WF(_)
WF(v) ==
    CASE v[1] \in {"z", "b", "n", "s"} -> TRUE
      [] v[1] = "a" -> \A i \in 1..Len(v[2]) : WF(v[2][i])
      [] v[1] = "o" -> /\ Len(v[2]) = Len(v[3])
                       /\ \A i, j \in 1..Len(v[2]) : i # j => v[2][i] # v[2][j]
                       /\ \A i \in 1..Len(v[3]) : WF(v[3][i])
      [] OTHER -> FALSE
=============================================================================
