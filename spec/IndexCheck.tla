------------------------------- MODULE IndexCheck -------------------------------
(* Recorded URIs of schemas, links between them, and lookups, against the index  *)
(* of the documents.  The state is the index of the documents built so far.      *)
(*   build [n, out]    the first n documents have been built (or can be loaded)  *)
(*   node  [at, out]   base and canonical URI, and the parent schema, resource   *)
(*                     root and document root, of the schema at <<d, path>>      *)
(*   look  [uri, out]  what the catalog finds under a URI: <<d, path>>           *)
EXTENDS TraceLib, SchemaIndex, Dialects

VARIABLE ix

XOf(hist, n, index) ==
    [tab |-> hist.tab, fam |-> StdFam, kws |-> StdKws, bymeta |-> StdMeta, docs |-> SubSeq(hist.docs, 1, n), ix |-> index]

VBuild(hist, e, nix) ==
    IF Unresolved(nix) # {}
    THEN IF IsOk(e.out) THEN "unresolvable-accepted" ELSE Check(Raised(e.out, "JschonError"), "unresolvable-wrong-exception")
    ELSE Check(IsOk(e.out), "construction-raised")

Ent(p) == ix.ents[CHOOSE k \in 1..Len(ix.ents) : ix.ents[k].loc.d = p[1] /\ ix.ents[k].loc.p = p[2]]
IsEnt(p) == \E k \in 1..Len(ix.ents) : ix.ents[k].loc.d = p[1] /\ ix.ents[k].loc.p = p[2]
Below(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p

\* the path of the nearest schema around path p of document d: <<>> or <<path>>
ParentOf(d, p) ==
    LET S == {k \in 1..Len(ix.ents) : ix.ents[k].loc.d = d /\ Below(ix.ents[k].loc.p, p)}
    IN IF S = {} THEN <<>>
       ELSE <<ix.ents[CHOOSE k \in S : \A j \in S : Len(ix.ents[j].loc.p) <= Len(ix.ents[k].loc.p)].loc.p>>

VNode(hist, e) ==
    IF IsErr(e.out) THEN "node-raised"
    ELSE IF ~IsEnt(e.at) THEN "not-a-schema"
    ELSE LET r == e.out[2]
             n == Ent(e.at)
             d == e.at[1]
             rel == SubSeq(n.loc.p, Len(n.loc.r) + 1, Len(n.loc.p))
             up == ParentOf(d, n.loc.p)
         IN IF r.base # Unsplit(n.base) THEN "base-uri"
            ELSE IF r.canon[1] # Unsplit(n.base) THEN "canonical-uri-base"
            ELSE IF r.canon[2] # rel THEN "canonical-uri-fragment"
            ELSE IF r.parent # (IF up = <<>> THEN <<0, <<>>>> ELSE <<d, up[1]>>) THEN "parent-schema"
            ELSE IF r.res # <<d, n.loc.r>> THEN "resource-root"
            ELSE Check(r.root = <<d, <<>>>>, "document-root")

VLook(hist, e) ==
    LET X == XOf(hist, Len(hist.docs), ix)
        m == Lookup(X, ix.ents, Parse(e.uri))
    IN IF m[1] = "ok"
       THEN IF IsErr(e.out) THEN "lookup-raised"
            ELSE Check(e.out[2] = <<m[2].d, m[2].p>>, "lookup-wrong-schema")
       ELSE IF IsOk(e.out) THEN "lookup-found-nothing-there"
            ELSE Check(Raised(e.out, "CatalogError"), "lookup-wrong-exception")

EInit == FInit /\ ix = <<>>
ENext ==
    /\ More
    /\ IF Ev.op = "build"
       THEN LET nix == Index(XOf(Hist, Ev.n, <<>>)) IN Say(VBuild(Hist, Ev, nix)) /\ ix' = nix
       ELSE /\ Say(IF Ev.op = "node" THEN VNode(Hist, Ev) ELSE VLook(Hist, Ev))
            /\ ix' = ix
    /\ l' = l + 1
    /\ UNCHANGED h
=============================================================================
