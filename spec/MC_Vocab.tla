-------------------------------- MODULE MC_Vocab --------------------------------
(* All short histories of defining vocabularies and creating metaschemas in two     *)
(* catalogs, with laws; every state prints what each metaschema's keywords must be.  *)
EXTENDS Vocab, TLC, Json, SequencesExt

CONSTANTS MaxOps

CoreUri == "https://json-schema.org/draft/2020-12/vocab/core"
Tab == [s \in {"https://json-schema.org/draft/", "/vocab/core", CoreUri, "v:1", "v:2"} |->
          CASE s = "v:1" -> <<118, 58, 49>>
            [] s = "v:2" -> <<118, 58, 50>>
            [] s = "/vocab/core" -> <<47, 118, 111, 99, 97, 98, 47, 99, 111, 114, 101>>
            [] s = "https://json-schema.org/draft/" ->
                 <<104, 116, 116, 112, 115, 58, 47, 47, 106, 115, 111, 110, 45, 115, 99, 104, 101, 109, 97, 46, 111, 114, 103, 47, 100, 114, 97, 102, 116, 47>>
            [] OTHER ->
                 <<104, 116, 116, 112, 115, 58, 47, 47, 106, 115, 111, 110, 45, 115, 99, 104, 101, 109, 97, 46, 111, 114, 103, 47, 100, 114, 97, 102, 116, 47,
                   50, 48, 50, 48, 45, 49, 50, 47, 118, 111, 99, 97, 98, 47, 99, 111, 114, 101>>]

Yes == BoolV(TRUE)
No == BoolV(FALSE)
With(ks, vs) == Obj(<<"$vocabulary">>, <<Obj(ks, vs)>>)
Docs == [R |-> With(<<CoreUri, "v:1">>, <<Yes, Yes>>),
         O |-> With(<<"v:1", CoreUri, "v:2">>, <<No, Yes, Yes>>),
         Q |-> With(<<"v:2", CoreUri>>, <<No, Yes>>),
         F |-> With(<<"v:2", CoreUri>>, <<No, No>>),
         P |-> Obj(<<"title">>, <<Str("t")>>)]
Names == DOMAIN Docs
Vocs == {"v:1", "v:2"}
Tags == {"t", "u"}
Custom(v, t) == [kws |-> <<>>, cus |-> <<<<IF v = "v:1" THEN "k1" ELSE "k2", "eq", t>>>>]

VARIABLES log, cats
vars == <<log, cats>>

Init == log = <<>> /\ cats = [c \in 1..2 |-> Standard(<<"2020-12">>)]
Define(c, v, t) ==
    /\ cats' = [cats EXCEPT ![c] = DefineVocabulary(@, v, Custom(v, t))]
    /\ log' = Append(log, <<"vocab", c, v, t, TRUE>>)
\* with the core as default, and v:2 with it
Make(c, m, def) ==
    LET d == Decide(cats[c], Tab, Docs[m], IF def THEN <<CoreUri>> ELSE <<>>, IF def THEN <<"v:2">> ELSE <<>>)
    IN /\ m \notin DOMAIN cats[c].dial
       /\ cats' = IF d[1] = "ok" THEN [cats EXCEPT ![c] = DefineMetaschema(@, {m}, d[2], 100 + Len(log))] ELSE cats
       /\ log' = Append(log, <<"meta", c, m, IF def THEN "default" ELSE "", d[1] = "ok">>)
Next == /\ Len(log) < MaxOps
        /\ \E c \in 1..2 : \/ \E v \in Vocs, t \in Tags : Define(c, v, t)
                           \/ \E m \in Names, def \in BOOLEAN : Make(c, m, def)

(* laws *)
Mine(c) == {m \in Names : m \in DOMAIN cats[c].dial}
Keys(d) == DOMAIN d.cus
TypeOK == \A c \in 1..2 : \A m \in Mine(c) : InSeq("$ref", cats[c].dial[m].kws) /\ Keys(cats[c].dial[m]) \subseteq {"k1", "k2"}
\* what is required is there; only what is declared is there
Required == \A c \in 1..2 : /\ "R" \in Mine(c) => Keys(cats[c].dial["R"]) = {"k1"}
                            /\ "O" \in Mine(c) => "k2" \in Keys(cats[c].dial["O"])
                            /\ "Q" \in Mine(c) => Keys(cats[c].dial["Q"]) \subseteq {"k2"}
                            /\ "P" \in Mine(c) => Keys(cats[c].dial["P"]) = {"k2"}
                            /\ "F" \notin Mine(c)
\* an optional vocabulary that is not known counts for nothing
Optional == \A c \in 1..2 : "v:1" \notin DOMAIN cats[c].voc =>
               Decide(cats[c], Tab, Docs.O, <<>>, <<>>) = Decide(cats[c], Tab, With(<<CoreUri, "v:2">>, <<Yes, Yes>>), <<>>, <<>>)
\* once a metaschema is accepted it is accepted whatever else becomes known
Monotone == \A c \in 1..2 : \A m \in Mine(c) : \E def \in BOOLEAN :
               Decide(cats[c], Tab, Docs[m], IF def THEN <<CoreUri>> ELSE <<>>, IF def THEN <<"v:2">> ELSE <<>>)[1] = "ok"
\* what happens in one catalog does not show in another; a metaschema keeps its meaning; a refusal changes nothing
Isolated == [][Cardinality({c \in 1..2 : cats'[c] # cats[c]}) <= 1]_vars
Kept == [][\A c \in 1..2 : \A m \in Mine(c) : cats'[c].dial[m] = cats[c].dial[m]]_vars
Refusing == [][log'[Len(log')][5] = FALSE => cats' = cats]_vars

View == LET s == SetToSeq({<<c, m>> : c \in 1..2, m \in Names})
            tags(c, m) == LET d == cats[c].dial[m].cus
                              one(k) == IF k \in DOMAIN d THEN <<<<k, d[k][2]>>>> ELSE <<>>
                          IN one("k1") \o one("k2")
        IN [n \in 1..Len(s) |-> <<s[n][1], s[n][2], s[n][2] \in Mine(s[n][1]), IF s[n][2] \in Mine(s[n][1]) THEN tags(s[n][1], s[n][2]) ELSE <<>>>>]
Out == PrintT("VCASE " \o ToJson([log |-> log, view |-> View]))
=============================================================================
