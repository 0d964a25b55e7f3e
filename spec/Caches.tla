---------------------------------- MODULE Caches ----------------------------------
(* The schema caches of catalogs.  cache is a function from <<catalog, cache id>> *)
(* (only those that hold or held something) to functions from URIs to schema       *)
(* objects.  A URI is <<base, fragment>>; the fragment "" means none.               *)
(*                                                                                  *)
(* Documents: docs[name] = [bad, refs, nodes]; nodes is a sequence of the schemas   *)
(* in it, [ptr, id, anchor, res]: where in the document, "$id" or "", "$anchor" or  *)
(* "", the node at the root of the surrounding resource.  The first is the root.    *)
(* A schema object is <<event that created it, document, node>>.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Empty == <<>>
Of(cache, ck) == IF ck \in DOMAIN cache THEN cache[ck] ELSE Empty
Set(cache, ck, m) == (ck :> m) @@ cache
Put(m, u, o) == (u :> o) @@ m
Drop(m, u) == [v \in DOMAIN m \ {u} |-> m[v]]

RECURSIVE BaseOf(_, _, _)
BaseOf(nodes, n, uri) ==
    IF nodes[n].id # "" THEN nodes[n].id ELSE IF n = 1 THEN uri ELSE BaseOf(nodes, nodes[n].res, uri)

\* what building a document (given the URI uri, or "") puts into a cache, in order
RECURSIVE PutsFrom(_, _, _, _, _)
PutsFrom(m, nodes, n, uri, mk) ==
    IF n > Len(nodes) THEN m
    ELSE LET b == BaseOf(nodes, n, uri)
             own == IF (n = 1 \/ nodes[n].id # "") /\ b # "" THEN Put(m, <<b, "">>, <<mk[1], mk[2], n>>) ELSE m
             anc == IF nodes[n].anchor # "" /\ b # "" THEN Put(own, <<b, nodes[n].anchor>>, <<mk[1], mk[2], n>>) ELSE own
         IN PutsFrom(anc, nodes, n + 1, uri, mk)

\* the schema at a pointer fragment below an object
Below(docs, o, frag) ==
    LET nodes == docs[o[2]].nodes
        S == {n \in 1..Len(nodes) : nodes[n].ptr = nodes[o[3]].ptr \o frag}
    IN IF S = {} THEN <<>> ELSE <<o[1], o[2], CHOOSE n \in S : TRUE>>

(* Looking up, with what is there to be loaded: srcs, from base URIs to documents.  *)
(* A state is [ok, m, loads]: still successful, the cache, base URIs loaded in turn. *)
RECURSIVE Find1(_, _, _, _, _), LoadDoc(_, _, _, _, _), Refs(_, _, _, _, _, _)

\* [st, obj]: obj = <<>> when there is none
Find1(docs, srcs, ev, st, u) ==
    LET b == <<u[1], "">>
        in(s) == IF u \in DOMAIN s.m THEN s.m[u]
                 ELSE IF b \in DOMAIN s.m THEN Below(docs, s.m[b], u[2]) ELSE <<>>
    IN IF u \in DOMAIN st.m \/ b \in DOMAIN st.m THEN [st |-> st, obj |-> in(st)]
       ELSE IF u[1] \notin DOMAIN srcs THEN [st |-> [st EXCEPT !.ok = FALSE], obj |-> <<>>]
       ELSE LET s == LoadDoc(docs, srcs, ev, st, u[1])
            IN IF ~s.ok THEN [st |-> s, obj |-> <<>>] ELSE [st |-> s, obj |-> in(s)]

LoadDoc(docs, srcs, ev, st, b) ==
    LET d == srcs[b]
        loads == Append(st.loads, b)
        \* it stays under the URI it was loaded from, whatever its "$id"
        m == PutsFrom(Put(st.m, <<b, "">>, <<ev, d, 1>>), docs[d].nodes, 1, b, <<ev, d>>)
    IN IF docs[d].bad THEN [ok |-> FALSE, m |-> st.m, loads |-> loads]
       ELSE Refs(docs, srcs, ev, [ok |-> TRUE, m |-> m, loads |-> loads], docs[d].refs, 1)

Refs(docs, srcs, ev, st, refs, k) ==
    IF k > Len(refs) \/ ~st.ok THEN st
    ELSE LET f == Find1(docs, srcs, ev, st, refs[k])
         IN IF f.obj = <<>> THEN [f.st EXCEPT !.ok = FALSE] ELSE Refs(docs, srcs, ev, f.st, refs, k + 1)

\* a lookup: [obj, m, loads].  When the document cannot be loaded or built, the cache stays as it was
Lookup(docs, srcs, ev, m, u) ==
    LET f == Find1(docs, srcs, ev, [ok |-> TRUE, m |-> m, loads |-> <<>>], u)
    IN IF f.st.ok THEN [obj |-> f.obj, m |-> f.st.m, loads |-> f.st.loads] ELSE [obj |-> <<>>, m |-> m, loads |-> f.st.loads]

\* building a document in a cache
Build(docs, srcs, ev, m, d, uri) ==
    LET m1 == PutsFrom(m, docs[d].nodes, 1, uri, <<ev, d>>)
    IN IF docs[d].bad THEN [ok |-> FALSE, m |-> m, loads |-> <<>>]
       ELSE Refs(docs, srcs, ev, [ok |-> TRUE, m |-> m1, loads |-> <<>>], docs[d].refs, 1)

\* giving a schema object another URI: <<>> for none
Rename(m, o, old, new) ==
    LET m1 == IF old # <<>> /\ old \in DOMAIN m /\ m[old] = o THEN Drop(m, old) ELSE m
    IN IF old = new THEN m ELSE IF new = <<>> THEN m1 ELSE Put(m1, new, o)
=============================================================================
