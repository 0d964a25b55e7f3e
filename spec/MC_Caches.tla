-------------------------------- MODULE MC_Caches --------------------------------
(* All short histories over a few documents, two catalogs and two cache ids, with   *)
(* laws of the cache design; every state prints what each lookup must find.          *)
EXTENDS Caches, Json, SequencesExt

CONSTANTS MaxOps, CKs
VARIABLES log, cache, cur

Two == {<<1, "default">>, <<1, "x">>}
Three == Two \cup {<<2, "default">>}

N(p, i, a, r) == [ptr |-> p, id |-> i, anchor |-> a, res |-> r]
Docs == [A |-> [bad |-> FALSE, refs |-> <<>>, nodes |-> <<N("", "", "", 1), N("/$defs/s", "", "a", 1)>>],
         B |-> [bad |-> FALSE, refs |-> <<<<"s:w", "">>>>, nodes |-> <<N("", "s:v", "", 1)>>],
         \* loaded from s:w, but calls itself s:v, and refers to both
         L |-> [bad |-> FALSE, refs |-> <<<<"s:w", "/$defs/s">>, <<"s:v", "">>>>, nodes |-> <<N("", "s:v", "", 1), N("/$defs/s", "", "b", 1)>>],
         \* loads L, then cannot be built
         F |-> [bad |-> FALSE, refs |-> <<<<"s:w", "b">>, <<"s:nowhere", "">>>>, nodes |-> <<N("", "s:g", "", 1)>>]]
Srcs == [x \in {"s:w", "s:f"} |-> IF x = "s:w" THEN "L" ELSE "F"]
Uris == {<<b, f>> : b \in {"s:u", "s:v", "s:w", "s:f", "s:g"}, f \in {"", "a", "b", "/$defs/s"}}

Roots == {<<n, log[n][4], 1>> : n \in {m \in 1..Len(log) : log[m][1] = "new"}}
CkOf(o) == <<log[o[1]][2], log[o[1]][3]>>
UriOf(o) == IF o \in DOMAIN cur THEN cur[o] ELSE IF Docs[o[2]].nodes[1].id # "" THEN <<Docs[o[2]].nodes[1].id, "">> ELSE <<log[o[1]][5], "">>

Init == log = <<>> /\ cache = Empty /\ cur = Empty
ev == Len(log) + 1
New(ck, d, u) == LET r == Build(Docs, Srcs, ev, Of(cache, ck), d, u)
                 IN /\ r.ok /\ cache' = Set(cache, ck, r.m) /\ UNCHANGED cur
                    /\ log' = Append(log, <<"new", ck[1], ck[2], d, u>>)
Get(ck, u) == LET r == Lookup(Docs, Srcs, ev, Of(cache, ck), u)
              IN /\ cache' = Set(cache, ck, r.m) /\ UNCHANGED cur
                 /\ log' = Append(log, <<"get", ck[1], ck[2], u>>)
Del(ck, u) == /\ u \in DOMAIN Of(cache, ck) /\ cache' = Set(cache, ck, Drop(cache[ck], u)) /\ UNCHANGED cur
              /\ log' = Append(log, <<"del", ck[1], ck[2], u>>)
Ren(o, u) == /\ cache' = Set(cache, CkOf(o), Rename(Of(cache, CkOf(o)), o, UriOf(o), u)) /\ cur' = (o :> u) @@ cur
             /\ log' = Append(log, <<"uri", o, u>>)
Add(ck, u, o) == /\ cache' = Set(cache, ck, Put(Of(cache, ck), u, o)) /\ UNCHANGED cur
                 /\ log' = Append(log, <<"add", ck[1], ck[2], u, o>>)
Next == /\ Len(log) < MaxOps
        /\ \/ \E ck \in CKs : \/ New(ck, "A", "s:u") \/ New(ck, "A", "s:v") \/ New(ck, "B", "")
                              \/ \E u \in {<<"s:w", "">>, <<"s:w", "b">>, <<"s:f", "">>, <<"s:w", "nope">>} : Get(ck, u)
                              \/ \E u \in {<<"s:u", "">>, <<"s:v", "">>, <<"s:w", "">>} : Del(ck, u)
                              \/ \E o \in Roots : Add(ck, <<"s:u", "">>, o)
           \/ \E o \in Roots, u \in {<<"s:u", "">>, <<"s:v", "">>, <<>>} : Ren(o, u)

(* laws *)
Twice == \A ck \in CKs, u \in Uris :
           LET r == Lookup(Docs, Srcs, ev, Of(cache, ck), u)
               q == Lookup(Docs, Srcs, ev + 1, r.m, u)
           IN r.obj # <<>> => q.obj = r.obj /\ q.loads = <<>> /\ q.m = r.m
FailKeeps == \A ck \in CKs, u \in {x \in Uris : x[1] \in {"s:f", "s:g"}} :
               LET r == Lookup(Docs, Srcs, ev, Of(cache, ck), u) IN r.obj = <<>> /\ r.m = Of(cache, ck)
Isolated == [][Cardinality({ck \in CKs : Of(cache', ck) # Of(cache, ck)}) <= 1]_<<log, cache, cur>>
Identity == \A ck \in CKs, u \in Uris : u \in DOMAIN Of(cache, ck) => Lookup(Docs, Empty, ev, cache[ck], u).obj = cache[ck][u]

View == LET s == SetToSeq({<<ck, u>> : ck \in CKs, u \in Uris})
        IN [n \in 1..Len(s) |-> <<s[n][1], s[n][2], Lookup(Docs, Empty, ev, Of(cache, s[n][1]), s[n][2]).obj>>]
Out == PrintT("VCASE " \o ToJson([log |-> log, view |-> View]))
=============================================================================
