------------------------------- MODULE PatchList -------------------------------
(* A JSON Patch as a mutable list of operations.  List semantics over any     *)
(* kind of element; Same(_, _) is equality of elements.                       *)
EXTENDS Patch

LIx(s, i) == IF i < 0 THEN i + Len(s) ELSE i
LIn(s, i) == LIx(s, i) \in 0..(Len(s) - 1)
LClamp(s, i) == LET j == LIx(s, i) IN IF j < 0 THEN 0 ELSE IF j > Len(s) THEN Len(s) ELSE j

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* the 0-based indices a Python slice selects; bounds are <<>> or <<integer>>
SliceIx(n, i, j, k) ==
    LET step == IF k = <<>> THEN 1 ELSE k[1]
        lo == IF step > 0 THEN 0 ELSE -1
        hi == IF step > 0 THEN n ELSE n - 1
        adj(x) == IF x < 0 THEN x + n ELSE x
        a == IF i = <<>> THEN (IF step > 0 THEN lo ELSE hi) ELSE Clamp(adj(i[1]), lo, hi)
        b == IF j = <<>> THEN (IF step > 0 THEN hi ELSE lo) ELSE Clamp(adj(j[1]), lo, hi)
        RECURSIVE G(_)
        G(x) == IF (step > 0 /\ x >= b) \/ (step < 0 /\ x <= b) THEN <<>> ELSE <<x>> \o G(x + step)
    IN G(a)
Pick(s, ix) == [x \in 1..Len(ix) |-> s[ix[x] + 1]]
Without(s, ix) ==
    LET keep == {x \in 1..Len(s) : \A y \in 1..Len(ix) : ix[y] + 1 # x}
        RECURSIVE G(_)
        G(x) == IF x > Len(s) THEN <<>> ELSE (IF x \in keep THEN <<s[x]>> ELSE <<>>) \o G(x + 1)
    IN G(1)

\* first 1-based position of an element equal to o, 0 if none
FirstIx(s, o, Same(_, _)) ==
    LET S == {i \in 1..Len(s) : Same(s[i], o)}
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* a call c on list s: <<"ok", new list, answer>> or Err
Call(s, c, Same(_, _)) ==
    CASE c.m = "get"      -> IF LIn(s, c.i) THEN <<"ok", s, s[LIx(s, c.i) + 1]>> ELSE Err
      [] c.m = "slice"    -> <<"ok", s, Pick(s, SliceIx(Len(s), c.s[1], c.s[2], c.s[3]))>>
      [] c.m = "set"      -> IF LIn(s, c.i) THEN <<"ok", [s EXCEPT ![LIx(s, c.i) + 1] = c.o], 0>> ELSE Err
      [] c.m = "del"      -> IF LIn(s, c.i) THEN <<"ok", RemoveAtIx(s, LIx(s, c.i) + 1), 0>> ELSE Err
      [] c.m = "delslice" -> <<"ok", Without(s, SliceIx(Len(s), c.s[1], c.s[2], c.s[3])), 0>>
      [] c.m = "insert"   -> <<"ok", InsertAtIx(s, LClamp(s, c.i) + 1, c.o), 0>>
      [] c.m = "append"   -> <<"ok", Append(s, c.o), 0>>
      [] c.m = "extend"   -> <<"ok", s \o c.os, 0>>
      [] c.m = "double"   -> <<"ok", s \o s, 0>>
      [] c.m = "pop"      -> IF LIn(s, c.i) THEN <<"ok", RemoveAtIx(s, LIx(s, c.i) + 1), s[LIx(s, c.i) + 1]>> ELSE Err
      [] c.m = "remove"   -> LET i == FirstIx(s, c.o, Same) IN IF i = 0 THEN Err ELSE <<"ok", RemoveAtIx(s, i), 0>>
      [] c.m = "index"    -> LET i == FirstIx(s, c.o, Same) IN IF i = 0 THEN Err ELSE <<"ok", s, i - 1>>
      [] c.m = "count"    -> <<"ok", s, Cardinality({i \in 1..Len(s) : Same(s[i], c.o)})>>
      [] c.m = "has"      -> <<"ok", s, FirstIx(s, c.o, Same) # 0>>
      [] c.m = "reverse"  -> <<"ok", Rev(s), 0>>
      [] c.m = "clear"    -> <<"ok", <<>>, 0>>
      [] c.m = "len"      -> <<"ok", s, Len(s)>>
      [] c.m = "iter"     -> <<"ok", s, s>>
      [] c.m = "reversed" -> <<"ok", s, Rev(s)>>
      [] c.m = "eq"       -> <<"ok", s, Len(s) = Len(c.os) /\ \A i \in 1..Len(s) : Same(s[i], c.os[i])>>
      [] c.m = "badop"    -> Err
=============================================================================
