---------------------------------- MODULE Vocab ----------------------------------
(* What the keywords of a schema mean: catalogs hold vocabularies and metaschemas; *)
(* a metaschema determines a dialect when it is created, from the vocabularies     *)
(* that are known to its catalog then.                                             *)
(* A vocabulary is [kws, cus]: standard keywords, and custom ones as               *)
(* <<key, kind, tag>>.  A dialect is [kws, cus, fam], cus: key -> <<kind, tag>>.   *)
(* A catalog is [voc, dial, obj]: URI -> vocabulary, URI -> dialect, URI -> number *)
(* of the metaschema found under it.                                               *)
EXTENDS Dialects, SchemaIndex

Draft == "https://json-schema.org/draft/"
StdUri(g, name) == Draft \o g \o "/vocab/" \o name
V(kws) == [kws |-> kws, cus |-> <<>>]

StdVocs(g) ==
    LET u(name) == StdUri(g, name)
        shared == u("validation") :> V(Validation) @@ u("meta-data") :> V(MetaData) @@ u("content") :> V(Content)
    IN IF g = "2019-09"
       THEN u("core") :> V(Core19) @@ u("applicator") :> V(Applicator19) @@ u("format") :> V(<<"format">>) @@ shared
       ELSE u("core") :> V(Core20) @@ u("applicator") :> V(Applicator20) @@ u("unevaluated") :> V(Unevaluated)
            @@ u("format-annotation") :> V(<<"format">>) @@ shared

StdMetaUri(g) == Draft \o g \o "/schema"

RECURSIVE Join(_, _)
Join(F(_), n) == IF n = 0 THEN <<>> ELSE F(n) @@ Join(F, n - 1)
RECURSIVE Concat(_, _)
Concat(F(_), n) == IF n = 0 THEN <<>> ELSE Concat(F, n - 1) \o F(n)

\* a catalog with the standard dialects of the drafts listed
Standard(drafts) ==
    LET vs(n) == StdVocs(drafts[n])
        ms(n) == StdMetaUri(drafts[n]) :> [kws |-> StdKws[drafts[n]], cus |-> <<>>, fam |-> StdFam[drafts[n]]]
        os(n) == StdMetaUri(drafts[n]) :> n
    IN [voc |-> Join(vs, Len(drafts)), dial |-> Join(ms, Len(drafts)), obj |-> Join(os, Len(drafts))]

\* the dialect that several vocabularies make
DialectFrom(vocs) ==    \* a sequence of vocabularies
    LET kw(n) == vocs[n].kws
        kws == Concat(kw, Len(vocs))
        cu(n) == LET one(j) == vocs[n].cus[j][1] :> <<vocs[n].cus[j][2], vocs[n].cus[j][3]>> IN Join(one, Len(vocs[n].cus))
    IN [kws |-> kws, cus |-> Join(cu, Len(vocs)), fam |-> IF InSeq("additionalItems", kws) THEN "2019-09" ELSE "2020-12"]

AbsoluteNormal(t) == LET u == Parse(t) IN u[1] # None /\ IsNormal(u)

\* https://json-schema.org/draft/<something>/vocab/core
IsCoreUri(tab, s) ==
    LET t == tab[s]
        a == tab[Draft]
        b == tab["/vocab/core"]
        n == Len(t) - Len(a) - Len(b)
    IN n > 0 /\ StartsWith(t, a) /\ From(t, Len(t) - Len(b) + 1) = b /\ \A k \in Len(a) + 1..Len(a) + n : t[k] # 47

\* the dialect of metaschema document doc, given default vocabularies (core: a sequence of at most one):
\* <<"ok", dialect>>, <<"no">>, or <<"?">> where it is not determined
Decide(cat, tab, doc, core, defaults) ==
    LET known(u) == u \in DOMAIN cat.voc
        def(n) == cat.voc[(core \o defaults)[n]]
        dv == Member(doc, "$vocabulary")
        cores == {k \in 1..Len(dv[2]) : IsCoreUri(tab, dv[2][k])}
        it == dv[2][CHOOSE k \in cores : TRUE]
        use(k) == IF known(dv[2][k]) THEN <<cat.voc[dv[2][k]]>> ELSE <<>>
        vocs == Concat(use, Len(dv[2]))
    IN IF \E n \in 1..Len(core \o defaults) : ~known((core \o defaults)[n]) THEN <<"no">>
       ELSE IF ~HasKey(doc, "$vocabulary")
       THEN IF core = <<>> THEN <<"no">> ELSE <<"ok", DialectFrom([n \in 1..Len(core \o defaults) |-> def(n)])>>
       ELSE IF Cardinality(cores) # 1 THEN IF core = <<>> THEN <<"no">> ELSE <<"?">>
       ELSE IF ~known(it) \/ Member(dv, it) # BoolV(TRUE) THEN <<"no">>
       ELSE IF \E k \in 1..Len(dv[2]) : ~AbsoluteNormal(tab[dv[2][k]]) \/ (dv[3][k] = BoolV(TRUE) /\ ~known(dv[2][k])) THEN <<"no">>
       ELSE <<"ok", DialectFrom(vocs)>>

DefineVocabulary(cat, uri, voc) == [cat EXCEPT !.voc = (uri :> voc) @@ @]
\* a metaschema is found under the URI it was loaded from and under its own
DefineMetaschema(cat, uris, dial, n) ==
    [cat EXCEPT !.dial = [u \in uris |-> dial] @@ @, !.obj = [u \in uris |-> n] @@ @]
=============================================================================
