-------------------------------- MODULE Catalogs --------------------------------
(* Catalogs: found by name, and each with its own dialects, formats, vocabularies,   *)
(* sources and schemas.  A state is [reg, cats, schs]:                                *)
(*   reg:  function from names to catalogs                                            *)
(*   cats: function from catalogs to [vs, fm, voc, src, us] - the dialects, the       *)
(*         formats enabled, the mark of its vocabulary and of its source (0: none),   *)
(*         and its schemas by URI                                                     *)
(*   schs: function from schemas to [c, k, f, fm, mark] - the catalog it is built in, *)
(*         what it is, the format it names, the formats enabled when it was built,    *)
(*         and the mark it found                                                      *)
(* Catalogs and schemas are the numbers of the events that made them.                 *)
(*                                                                                    *)
(* An operation [op, ...]; its effect is [ok, out, S]: whether it succeeds (or the    *)
(* exception it must raise: "ValueError", "CatalogError", "any"), what it returns.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Dialects == {"2019-09", "2020-12", "next"}
None == <<>>
NewCatalog(vs) == [vs |-> vs, fm |-> {}, voc |-> 0, src |-> 0, us |-> None]
S0 == [reg |-> None, cats |-> None, schs |-> None]

Done(out, S) == [ok |-> TRUE, exc |-> "", out |-> out, S |-> S]
Fail(exc, S) == [ok |-> FALSE, exc |-> exc, out |-> 0, S |-> S]

\* versions: a sequence; a failure leaves everything as it was
Create(S, ev, name, versions) ==
    LET vs == {versions[i] : i \in 1..Len(versions)}
    IN IF ~(vs \subseteq Dialects) THEN Fail("ValueError", S)
       ELSE Done(ev, [S EXCEPT !.reg = (name :> ev) @@ @, !.cats = (ev :> NewCatalog(vs)) @@ @])

FindCatalog(S, name) == IF name \in DOMAIN S.reg THEN Done(S.reg[name], S) ELSE Fail("CatalogError", S)

\* a catalog given as it is, <<"obj", c>>, or by its name, <<"name", n>>; <<0>> when there is none
Which(S, by) == IF by[1] = "obj" THEN by[2] ELSE IF by[2] \in DOMAIN S.reg THEN S.reg[by[2]] ELSE 0

Enable(S, c, fs) == Done(0, [S EXCEPT !.cats[c].fm = @ \cup {fs[i] : i \in 1..Len(fs)}])
IsEnabled(S, c, f) == Done(f \in S.cats[c].fm, S)
SetVoc(S, c, mark) == Done(0, [S EXCEPT !.cats[c].voc = mark])
SetSrc(S, c, mark) == Done(0, [S EXCEPT !.cats[c].src = mark])
GetVoc(S, c) == IF S.cats[c].voc = 0 THEN Fail("CatalogError", S) ELSE Done(S.cats[c].voc, S)
Load(S, c) == IF S.cats[c].src = 0 THEN Fail("CatalogError", S) ELSE Done(S.cats[c].src, S)

\* the dialect "own" is that of a metaschema that the catalog's source has, with the catalog's vocabulary
HasDialect(k, d) ==
    IF d = "own" THEN k.src # 0 /\ k.voc # 0 /\ "2020-12" \in k.vs ELSE d \in k.vs
\* kinds of schema: "fmt" names a format, "ref" refers to a document of the source,
\* "voc" has the keyword of the vocabulary, "true" is a boolean schema
Build(S, ev, by, d, kind, f, uri) ==
    LET c == Which(S, by)
    IN IF c = 0 THEN Fail("CatalogError", S)
       ELSE LET k == S.cats[c]
                ok == IF kind = "true" THEN TRUE ELSE HasDialect(k, d) /\ (kind = "ref" => k.src # 0)
                mark == IF kind = "ref" THEN k.src ELSE IF kind = "voc" /\ d = "own" THEN k.voc ELSE 0
                s == [c |-> c, k |-> kind, f |-> f, fm |-> k.fm, mark |-> mark]
            IN IF ok THEN Done(c, [S EXCEPT !.schs = (ev :> s) @@ @,
                                            !.cats[c].us = IF uri = "" THEN @ ELSE (uri :> ev) @@ @])
               \* nothing is said about what a schema that cannot be built leaves under its own URI: 0
               ELSE Fail(IF d \in Dialects \ k.vs THEN "CatalogError" ELSE "any",
                         IF uri = "" THEN S ELSE [S EXCEPT !.cats[c].us = (uri :> 0) @@ @])
FindSchema(S, c, uri) ==
    IF uri \in DOMAIN S.cats[c].us /\ S.cats[c].us[uri] # 0 THEN Done(S.cats[c].us[uri], S) ELSE Fail("CatalogError", S)
Unsaid(S, o) == o.op = "get" /\ o.u \in DOMAIN S.cats[o.c].us /\ S.cats[o.c].us[o.u] = 0
FindMeta(S, c, d) == IF HasDialect(S.cats[c], d) THEN Done(d, S) ELSE Fail("any", S)

\* what evaluating a schema may show: for "fmt", whether it rejects what the format rejects;
\* for "ref" the one number it accepts; for "voc" the mark the keyword leaves
Shows(S, s) ==
    LET x == S.schs[s]
    IN CASE x.k = "fmt" -> {v \in {0, 1} : (x.f \in x.fm => v = 1) /\ (x.f \notin S.cats[x.c].fm => v = 0)}
         [] x.k \in {"ref", "voc"} -> {x.mark}
         [] OTHER -> {0}

Apply(S, ev, o) ==
    CASE o.op = "create"  -> Create(S, ev, o.name, o.vs)
      [] o.op = "find"    -> FindCatalog(S, o.name)
      [] o.op = "enable"  -> Enable(S, o.c, o.fs)
      [] o.op = "enabled" -> IsEnabled(S, o.c, o.f)
      [] o.op = "setvoc"  -> SetVoc(S, o.c, o.mark)
      [] o.op = "getvoc"  -> GetVoc(S, o.c)
      [] o.op = "setsrc"  -> SetSrc(S, o.c, o.mark)
      [] o.op = "load"    -> Load(S, o.c)
      [] o.op = "schema"  -> Build(S, ev, o.by, o.d, o.k, o.f, o.u)
      [] o.op = "get"     -> FindSchema(S, o.c, o.u)
      [] o.op = "getmeta" -> FindMeta(S, o.c, o.d)
=============================================================================
