--------------------------------- MODULE Regex ---------------------------------
(* Search for a regular expression in a text (a sequence of code points), by  *)
(* the sets of positions a match can have reached.                            *)
(*   <<"ch", ranges>>  one character in one of the <<lo, hi>> ranges          *)
(*   <<"nc", ranges>>  one character in none of them                          *)
(*   <<"seq", rs>> <<"alt", rs>> <<"rep", r, min, max or -1>> <<"bol">> <<"eol">> *)
EXTENDS Integers, Sequences, FiniteSets

InR(c, rs) == \E k \in 1..Len(rs) : c >= rs[k][1] /\ c <= rs[k][2]

RECURSIVE Reach(_, _, _), ReachSeq(_, _, _, _), Star(_, _, _, _), Rep(_, _, _, _, _)
Reach(r, t, S) ==
    CASE r[1] = "ch" -> {i + 1 : i \in {j \in S : j < Len(t) /\ InR(t[j + 1], r[2])}}
      [] r[1] = "nc" -> {i + 1 : i \in {j \in S : j < Len(t) /\ ~InR(t[j + 1], r[2])}}
      [] r[1] = "seq" -> ReachSeq(r[2], t, S, 1)
      [] r[1] = "alt" -> UNION {Reach(r[2][k], t, S) : k \in 1..Len(r[2])}
      [] r[1] = "bol" -> S \cap {0}
      [] r[1] = "eol" -> S \cap {Len(t)}
      [] r[1] = "rep" -> Rep(r[2], t, S, r[3], r[4])
ReachSeq(rs, t, S, k) == IF k > Len(rs) THEN S ELSE ReachSeq(rs, t, Reach(rs[k], t, S), k + 1)
Star(r, t, new, seen) ==
    IF new \subseteq seen THEN seen ELSE Star(r, t, Reach(r, t, new), seen \cup new)
Rep(r, t, S, lo, hi) ==
    IF lo > 0 THEN Rep(r, t, Reach(r, t, S), lo - 1, IF hi < 0 THEN hi ELSE hi - 1)
    ELSE IF hi < 0 THEN Star(r, t, S, {})
    ELSE IF hi = 0 THEN S
    ELSE S \cup Rep(r, t, Reach(r, t, S), 0, hi - 1)

Search(r, t) == Reach(r, t, 0..Len(t)) # {}
=============================================================================
