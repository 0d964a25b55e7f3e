------------------------------ MODULE MC_PatchList ------------------------------
(* All lists up to a length over a few operations, all calls on them; laws of *)
(* the list semantics, and every transition printed for replay.               *)
EXTENDS PatchList, TLC, Json

CONSTANTS MaxLen, Elems
VARIABLE s

E3 == {"A", "B", "C"}
SameE(a, b) == a = b

Bounds == {<<>>} \cup {<<x>> : x \in -3..4}
Calls == {[m |-> mm, i |-> i] : mm \in {"get", "del", "pop"}, i \in (-MaxLen - 1)..(MaxLen + 1)}
         \cup {[m |-> mm, i |-> i, o |-> e] : mm \in {"set", "insert"}, i \in (-MaxLen - 1)..(MaxLen + 1), e \in Elems}
         \cup {[m |-> mm, o |-> e] : mm \in {"append", "remove", "index", "count", "has"}, e \in Elems}
         \cup {[m |-> mm, s |-> <<i, j, k>>] : mm \in {"slice", "delslice"}, i, j \in Bounds, k \in {<<>>, <<2>>, <<-1>>}}
         \cup {[m |-> mm] : mm \in {"reverse", "clear", "len", "iter", "reversed", "double"}}
         \cup {[m |-> mm, os |-> <<e, f>>] : mm \in {"extend", "eq"}, e, f \in Elems}

Init == s = <<>>
Next == \E c \in Calls : LET r == Call(s, c, SameE) IN r # Err /\ Len(r[2]) <= MaxLen /\ s' = r[2]

Laws == /\ Rev(Rev(s)) = s
        /\ \A i \in 0..Len(s), e \in Elems : RemoveAtIx(InsertAtIx(s, i + 1, e), i + 1) = s
        /\ Pick(s, SliceIx(Len(s), <<>>, <<>>, <<>>)) = s
        /\ Pick(s, SliceIx(Len(s), <<>>, <<>>, <<-1>>)) = Rev(s)
        /\ \A i, j \in Bounds : LET ix == SliceIx(Len(s), i, j, <<>>)
                                IN Len(Without(s, ix)) + Len(ix) = Len(s)
Out == \A c \in Calls : LET r == Call(s, c, SameE)
                        IN PrintT("VCASE " \o ToJson([s |-> s, c |-> c, r |-> IF r = Err THEN <<"err">> ELSE r]))
=============================================================================
