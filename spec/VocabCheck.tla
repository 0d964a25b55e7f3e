------------------------------- MODULE VocabCheck -------------------------------
(* Verdicts on histories of vocabularies, metaschemas and schemas in several     *)
(* catalogs (C24).  hist.drafts[c] are the standard drafts of catalog c;         *)
(* hist.metas: URI -> [val, ok], the documents that can be loaded as             *)
(* metaschemas, ok: whether they suit the standard metaschema they name.         *)
(*   vocab   [c, uri, kws, cus, out]         create_vocabulary                   *)
(*   getvoc  [c, uri, out]                   get_vocabulary: number of the object *)
(*   meta    [c, uri, core, defs, muri, out] create_metaschema: likewise         *)
(*   getmeta [c, uri, out]                   get_metaschema: likewise            *)
(*   build   [c, val, uri, g, metas, out]    build a schema; metas: the          *)
(*            metaschemas that it and its subschemas name                        *)
(*   eval    [at, inst, ip, out]             as in EvalCheck                     *)
(*   ann     [at, inst, ip, out]                                                 *)
(*   vald    [out]                           validate() of the schema            *)
EXTENDS EvalView, Vocab

VARIABLES cats, seen, cur

\* everything the evaluation of one document in catalog cat needs
XOf(hist, cat, doc, index) ==
    [tab |-> hist.tab, rx |-> hist.rx, fmt |-> <<hist.fmt>>,
     fam |-> [u \in DOMAIN cat.dial |-> cat.dial[u].fam],
     kws |-> [u \in DOMAIN cat.dial |-> cat.dial[u].kws],
     custom |-> [u \in DOMAIN cat.dial |-> cat.dial[u].cus],
     bymeta |-> [u \in DOMAIN cat.dial |-> u],
     docs |-> <<doc>>, ix |-> index]
Indexed(hist, cat, doc) == XOf(hist, cat, doc, Index(XOf(hist, cat, doc, <<>>)))

IsOurs(hist, u) == u \in DOMAIN hist.metas

\* whether value v is valid by the metaschema found under URI u
ValidBy(hist, cat, u, v) ==
    LET X == Indexed(hist, cat, [uri |-> hist.tab[u], val |-> hist.metas[u].val, g |-> cat.dial[u].by])
    IN Evaluate(X, X.ix.ents[1].loc, v, <<>>).v

\* creating the metaschema at uri: [r, cat], r "ok", "no" or "?"; n numbers it
RECURSIVE Create(_, _, _, _, _, _, _)
Create(hist, cat, uri, core, defs, muri, n) ==
    IF ~IsOurs(hist, uri) THEN [r |-> "no", cat |-> cat]
    ELSE LET doc == hist.metas[uri].val
             d == Decide(cat, hist.tab, doc, core, defs)
             uris == {uri} \cup (IF StrMember(doc, "$id") THEN {Member(doc, "$id")[2]} ELSE {})
             mu == IF StrMember(doc, "$schema") THEN <<Member(doc, "$schema")[2]>> ELSE muri
             no == [r |-> "no", cat |-> cat]
         IN IF d[1] # "ok" THEN [r |-> d[1], cat |-> cat]
            ELSE IF mu = <<>> \/ (StrMember(doc, "$schema") /\ ~AbsoluteNormal(hist.tab[mu[1]])) THEN no
            ELSE LET got == DefineMetaschema(cat, uris, "by" :> mu[1] @@ d[2], n)   \* by: its own metaschema
                     base == IF mu[1] \in uris \/ mu[1] \in DOMAIN cat.dial THEN [r |-> "ok", cat |-> got]
                             ELSE Create(hist, got, mu[1], <<>>, <<>>, <<>>, n + 1)
                     by == IF mu[1] \in uris THEN uri ELSE mu[1]
                 IN IF base.r # "ok" THEN [r |-> base.r, cat |-> cat]
                    ELSE IF IF IsOurs(hist, by) THEN ~ValidBy(hist, base.cat, by, doc) ELSE ~hist.metas[uri].ok THEN no
                    ELSE base

\* every metaschema a document names
RECURSIVE CreateAll(_, _, _, _, _)
CreateAll(hist, cat, us, k, n) ==
    IF k > Len(us) THEN [r |-> "ok", cat |-> cat]
    ELSE IF ~AbsoluteNormal(hist.tab[us[k]]) THEN [r |-> "no", cat |-> cat]
    ELSE IF us[k] \in DOMAIN cat.dial THEN CreateAll(hist, cat, us, k + 1, n)
    ELSE LET c == Create(hist, cat, us[k], <<>>, <<>>, <<>>, n)
         IN IF c.r # "ok" THEN [r |-> c.r, cat |-> cat] ELSE CreateAll(hist, c.cat, us, k + 1, n + 10)

Refused(e, clause) == IF IsOk(e.out) THEN clause \o "-accepted" ELSE Check(Raised(e.out, "JschonError"), clause \o "-wrong-exception")

\* the object shown must be the one shown for number n before, and no other number's
Same(c, n, e) ==
    IF \E s \in seen : s[1] = c /\ s[2] = n THEN Check(<<c, n, e.out[2]>> \in seen, "another-object")
    ELSE Check(~\E s \in seen : s[3] = e.out[2], "object-of-another")

\* the outcome of finding or making a metaschema under uri in catalog c; r as from Create
VMeta(c, r, uri, e) ==
    IF r.r = "?" THEN "ok"
    ELSE IF r.r = "no" THEN Refused(e, "metaschema")
    ELSE IF IsErr(e.out) THEN "metaschema-raised"
    ELSE Same(c, r.cat.obj[uri], e)
Note(c, r, uri, e) == IF r.r = "ok" /\ IsOk(e.out) THEN seen \cup {<<c, r.cat.obj[uri], e.out[2]>>} ELSE seen

Fresh == 100 * l     \* numbers not used before

VInit == FInit /\ cats = [c \in 1..3 |-> Standard(Hist.drafts[c])] /\ seen = {} /\ cur = <<>>
VNext ==
    /\ More
    /\ CASE Ev.op = "vocab" ->
              /\ Say(Check(IsOk(Ev.out), "vocabulary-raised"))
              /\ cats' = [cats EXCEPT ![Ev.c] = DefineVocabulary(@, Ev.uri, [kws |-> Ev.kws, cus |-> Ev.cus, id |-> Ev.id])]
              /\ UNCHANGED <<seen, cur>>
         [] Ev.op = "getvoc" ->
              /\ LET v == cats[Ev.c].voc
                 IN Say(IF Ev.uri \notin DOMAIN v THEN IF IsOk(Ev.out) THEN "vocabulary-of-nowhere" ELSE Check(Raised(Ev.out, "CatalogError"), "vocabulary-wrong-exception")
                        ELSE IF IsErr(Ev.out) THEN "vocabulary-not-found"
                        ELSE Check(IF "id" \in DOMAIN v[Ev.uri] THEN Ev.out[2] = v[Ev.uri].id ELSE Ev.out[2] = -1, "another-vocabulary"))
              /\ UNCHANGED <<cats, seen, cur>>
         [] Ev.op \in {"meta", "getmeta"} ->
              LET cat == cats[Ev.c]
                  r == IF Ev.op = "meta" THEN Create(Hist, cat, Ev.uri, Ev.core, Ev.defs, Ev.muri, Fresh)
                       ELSE IF Ev.uri \in DOMAIN cat.dial THEN [r |-> "ok", cat |-> cat]
                       ELSE Create(Hist, cat, Ev.uri, <<>>, <<>>, <<>>, Fresh)
              IN /\ Say(VMeta(Ev.c, r, Ev.uri, Ev))
                 /\ seen' = Note(Ev.c, r, Ev.uri, Ev)
                 /\ cats' = [cats EXCEPT ![Ev.c] = r.cat]
                 /\ cur' = cur
         [] Ev.op = "build" ->
              LET r == CreateAll(Hist, cats[Ev.c], Ev.metas, 1, Fresh)
                  doc == [uri |-> Ev.uri, val |-> Ev.val, g |-> Ev.g]
                  X == Indexed(Hist, r.cat, doc)
              IN IF r.r # "ok"
                 THEN /\ Say(IF r.r = "?" THEN "ok" ELSE Refused(Ev, "schema-without-metaschema"))
                      /\ UNCHANGED <<cats, seen, cur>>
                 ELSE /\ Say(IF Unresolved(X.ix) # {} THEN Refused(Ev, "unresolvable") ELSE Check(IsOk(Ev.out), "construction-raised"))
                      /\ cats' = [cats EXCEPT ![Ev.c] = r.cat]
                      /\ cur' = <<X, Ev.c>>
                      /\ seen' = seen
         [] Ev.op = "vald" ->
              /\ Say(IF IsErr(Ev.out) THEN "validate-raised"
                     ELSE Check(Ev.out[2] = ValidBy(Hist, cats[cur[2]], cur[1].ix.ents[1].loc.g, cur[1].docs[1].val), "wrong-metaschema-verdict"))
              /\ UNCHANGED <<cats, seen, cur>>
         [] OTHER ->
              /\ Say(IF Ev.op = "eval" THEN VEval(cur[1], Hist, Ev) ELSE VAnn(cur[1], Hist, Ev))
              /\ UNCHANGED <<cats, seen, cur>>
    /\ l' = l + 1
    /\ UNCHANGED h
=============================================================================
