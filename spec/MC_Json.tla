-------------------------------- MODULE MC_Json --------------------------------
(* Laws of JSON equality and order over a universe of values built up by a    *)
(* behaviour: equivalence, congruence, order on numbers in all spellings.     *)
EXTENDS JM, TLC

CONSTANTS MaxNodes
VARIABLES v, n

Num(neg, d, e) == <<"n", neg, d, e>>
Nums == {Num(s, d, e) : s \in {0, 1}, d \in {<<0>>, <<1>>, <<1, 0>>, <<0, 1>>, <<2>>, <<1, 2>>, <<1, 0, 0>>}, e \in {-2, -1, 0, 1}}
Leaves == {Null, BoolV(TRUE), BoolV(FALSE), Num(0, <<1>>, 0), Num(0, <<1, 0>>, -1), Num(1, <<0>>, 0), Num(0, <<0>>, 0), Str(<<>>), Str(<<49>>), Arr(<<>>), Obj(<<>>, <<>>)}
Ka == <<97>>
Kb == <<98>>

Init == n = 0 /\ v \in Leaves
\* grow v by adding a leaf or by wrapping
Next == /\ n < MaxNodes /\ n' = n + 1
        /\ \E x \in Leaves :
             \/ IsArr(v) /\ v' \in {Arr(Append(v[2], x)), Arr(<<x>> \o v[2])}
             \/ IsObj(v) /\ \E k \in {Ka, Kb} : ~HasKey(v, k) /\ v' \in {SetMember(v, k, x), Obj(<<k>> \o v[2], <<x>> \o v[3])}
             \/ v' \in {Arr(<<v, x>>), Obj(<<Ka, Kb>>, <<v, x>>), Obj(<<Kb, Ka>>, <<x, v>>)}

\* spellings of v that must be equal to it
Respell(x) == IF IsNum(x) THEN {x, Num(x[2], Append(x[3], 0), x[4] - 1), Num(x[2], <<0>> \o x[3], x[4])}
              ELSE IF IsObj(x) /\ Len(x[2]) = 2 THEN {x, Obj(<<x[2][2], x[2][1]>>, <<x[3][2], x[3][1]>>)}
              ELSE {x}
Refl == JEq(v, v)
Spellings == \A a, b \in Respell(v) : JEq(a, b)
Against == \A x \in Leaves : /\ JEq(v, x) = JEq(x, v)
                             /\ (JEq(v, x) => \A y \in Leaves : JEq(v, y) = JEq(x, y))
                             /\ (JEq(v, x) => TypeName(v) = TypeName(x))
Congruent == \A x, y \in Leaves : /\ (JEq(Arr(<<v, x>>), Arr(<<v, y>>)) <=> JEq(x, y))
                                  /\ (JEq(Obj(<<Ka, Kb>>, <<v, x>>), Obj(<<Kb, Ka>>, <<y, v>>)) <=> JEq(x, y))
                                  /\ ~JEq(Arr(<<v>>), v) /\ ~JEq(Arr(<<v>>), Arr(<<v, v>>))
Wellformed == WF(v)

ASSUME \A a, b \in Nums : /\ NumCmp(a, b) = 0 - NumCmp(b, a)
                          /\ NumCmp(a, a) = 0
                          /\ NumCmp(Norm(a), a) = 0 /\ Norm(Norm(a)) = Norm(a)
                          /\ (NumCmp(a, b) = 0 <=> Norm(a) = Norm(b))
ASSUME \A a, b, c \in {x \in Nums : x[4] \in {-1, 0, 1}} : (NumCmp(a, b) <= 0 /\ NumCmp(b, c) <= 0) => NumCmp(a, c) <= 0
\* against integer arithmetic, scaled by 100
RECURSIVE Dec(_, _)
Dec(d, acc) == IF d = <<>> THEN acc ELSE Dec(Tail(d), acc * 10 + Head(d))
Pow(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 10 ELSE IF k = 2 THEN 100 ELSE 1000
Scaled(a) == (IF a[2] = 1 THEN -1 ELSE 1) * Dec(a[3], 0) * Pow(a[4] + 2)
ASSUME \A a, b \in Nums : NumCmp(a, b) = (IF Scaled(a) < Scaled(b) THEN -1 ELSE IF Scaled(a) > Scaled(b) THEN 1 ELSE 0)
=============================================================================
