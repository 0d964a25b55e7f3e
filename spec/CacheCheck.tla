-------------------------------- MODULE CacheCheck --------------------------------
(* Verdicts on histories of caches (C13).  Objects are recorded by serial numbers,   *)
(* and bound to the objects of the specification when first seen.                     *)
(*   new    [c, k, d, uri, out, objs, loads]   building a document; objs: serials of   *)
(*          its nodes                                                                  *)
(*   bad    [c, k, out]            building something that cannot be built             *)
(*   add    [c, k, u, o, out]      del [c, k, u, out]                                  *)
(*   uri    [o, u, out]            giving an object another URI (<<>>: none)           *)
(*   get    [c, k, u, on, out, tag, loads]   on: whether sources work; tag: <<document, *)
(*          node>> found                                                               *)
(*   enter  [c, k, given, fresh, out]        exit [c, k, out]                          *)
EXTENDS TraceLib, Caches

VARIABLES cache, bind, cur, org, inuse

Srcs(hist) == hist.srcs
CK(e) == <<e.c, e.k>>
ObjOf(s) == CHOOSE o \in DOMAIN bind : bind[o] = s
UriOf(hist, o) ==
    IF o \in DOMAIN cur THEN cur[o]
    ELSE LET nd == hist.docs[o[2]].nodes[o[3]]
         IN IF nd.id # "" THEN <<nd.id, "">>
            ELSE IF o[3] = 1 /\ org[<<o[1], o[2]>>][2] # "" THEN <<org[<<o[1], o[2]>>][2], "">> ELSE <<>>

NoDup(s) == Cardinality({s[j] : j \in 1..Len(s)}) = Len(s)
SameSet(a, b) == {a[j] : j \in 1..Len(a)} = {b[j] : j \in 1..Len(b)}
VLoads(e, want, ok) ==
    IF ~NoDup(e.loads) THEN "loaded-repeatedly"
    ELSE IF ok /\ {e.loads[j] : j \in 1..Len(e.loads)} \ {want[j] : j \in 1..Len(want)} # {} THEN "loaded-needlessly"
    ELSE Check(~ok \/ SameSet(e.loads, want), "not-loaded")

Loaded(hist, e, loads) == [x \in {<<l, Srcs(hist)[loads[j]]>> : j \in 1..Len(loads)} |->
                              <<CK(e), CHOOSE b \in {loads[j] : j \in 1..Len(loads)} : Srcs(hist)[b] = x[2]>>]

(* -------------------------------- the operations -------------------------------- *)
New(e) ==
    LET r == Build(Hist.docs, Srcs(Hist), l, Of(cache, CK(e)), e.d, e.uri)
    IN /\ Say(IF IsErr(e.out) THEN "construction-raised" ELSE VLoads(e, r.loads, TRUE))
       /\ cache' = Set(cache, CK(e), r.m)
       /\ bind' = [o \in {<<l, e.d, n>> : n \in 1..Len(e.objs)} |-> e.objs[o[3]]] @@ bind
       /\ org' = (<<l, e.d>> :> <<CK(e), e.uri>>) @@ Loaded(Hist, e, r.loads) @@ org
       /\ UNCHANGED <<cur, inuse>>

Bad(e) == /\ Say(Check(IsErr(e.out), "unbuildable-accepted"))
          \* what it may have left behind is under URIs that are not used again
          /\ UNCHANGED <<bind, cur, org, inuse>>
          /\ cache' = IF CK(e) \in DOMAIN cache THEN cache ELSE Set(cache, CK(e), Empty)

Add(e) == /\ Say(Check(IsOk(e.out), "add-raised"))
          /\ cache' = Set(cache, CK(e), Put(Of(cache, CK(e)), e.u, ObjOf(e.o)))
          /\ UNCHANGED <<bind, cur, org, inuse>>

Del(e) == /\ Say(Check(IsOk(e.out), "del-raised"))
          /\ cache' = IF CK(e) \in DOMAIN cache THEN Set(cache, CK(e), Drop(cache[CK(e)], e.u)) ELSE cache
          /\ UNCHANGED <<bind, cur, org, inuse>>

SetUri(e) ==
    LET o == ObjOf(e.o)
        ck == org[<<o[1], o[2]>>][1]
    IN /\ Say(Check(IsOk(e.out), "set-uri-raised"))
       /\ cache' = Set(cache, ck, Rename(Of(cache, ck), o, UriOf(Hist, o), e.u))
       /\ cur' = (o :> e.u) @@ cur
       /\ UNCHANGED <<bind, org, inuse>>

VObj(o, e) ==
    IF IsErr(e.out) THEN "not-found"
    ELSE IF <<o[2], o[3]>> # e.tag THEN "wrong-schema"
    ELSE IF o \in DOMAIN bind THEN Check(bind[o] = e.out[2], "another-object")
    ELSE Check(\A p \in DOMAIN bind : bind[p] # e.out[2], "stale-object")

Get(e) ==
    LET srcs == IF e.on THEN Srcs(Hist) ELSE Empty
        r == Lookup(Hist.docs, srcs, l, Of(cache, CK(e)), e.u)
        built == r.m # Of(cache, CK(e)) \/ r.loads = <<>>       \* nothing went wrong while loading
    IN /\ Say(IF r.obj = <<>>
              THEN IF IsOk(e.out) THEN "found-what-is-not-there"
                   ELSE IF built /\ ~Raised(e.out, "CatalogError") THEN "wrong-exception"
                   ELSE VLoads(e, r.loads, FALSE)
              ELSE First2(VObj(r.obj, e), VLoads(e, r.loads, TRUE)))
       /\ cache' = IF r.m = Of(cache, CK(e)) THEN cache ELSE Set(cache, CK(e), r.m)
       /\ bind' = IF r.obj # <<>> /\ IsOk(e.out) /\ r.obj \notin DOMAIN bind THEN (r.obj :> e.out[2]) @@ bind ELSE bind
       /\ org' = IF built THEN Loaded(Hist, e, r.loads) @@ org ELSE org
       /\ UNCHANGED <<cur, inuse>>

Enter(e) ==
    LET taken == CK(e) \in inuse \/ Of(cache, CK(e)) # Empty
    IN /\ Say(IF ~e.given THEN IF IsErr(e.out) THEN "enter-raised" ELSE Check(e.fresh, "generated-identifier-in-use")
              ELSE IF taken THEN IF IsOk(e.out) THEN "taken-identifier-accepted" ELSE Check(Raised(e.out, "CatalogError"), "taken-identifier-wrong-exception")
              ELSE IF CK(e) \in DOMAIN cache THEN "ok"       \* emptied by deletion: either
              ELSE Check(IsOk(e.out), "free-identifier-refused"))
       /\ inuse' = IF IsOk(e.out) THEN inuse \cup {CK(e)} ELSE inuse
       /\ UNCHANGED <<cache, bind, cur, org>>

Exit(e) ==
    /\ Say(Check(e.out = e.want, "leaving-went-wrong"))
    /\ inuse' = inuse \ {CK(e)}
    /\ cache' = [ck \in DOMAIN cache \ {CK(e)} |-> cache[ck]]
    /\ UNCHANGED <<bind, cur, org>>

CInit == FInit /\ cache = Empty /\ bind = Empty /\ cur = Empty /\ org = Empty /\ inuse = {}
CNext ==
    /\ More
    /\ CASE Ev.op = "new" -> New(Ev)
         [] Ev.op = "bad" -> Bad(Ev)
         [] Ev.op = "add" -> Add(Ev)
         [] Ev.op = "del" -> Del(Ev)
         [] Ev.op = "uri" -> SetUri(Ev)
         [] Ev.op = "get" -> Get(Ev)
         [] Ev.op = "enter" -> Enter(Ev)
         [] Ev.op = "exit" -> Exit(Ev)
    /\ l' = l + 1
    /\ UNCHANGED h
=============================================================================
