------------------------------ MODULE SchemaIndex ------------------------------
(* Which parts of a schema document are schemas, what their base and canonical *)
(* URIs are, and what a URI refers to.                                        *)
(*                                                                            *)
(* Strings inside schemas are atoms; X.tab gives their code points.  X holds: *)
(*   tab      string -> code points                                           *)
(*   fam      dialect name -> "2019-09" | "2020-12"   (keyword semantics)     *)
(*   kws      dialect name -> keywords known to its metaschema                *)
(*   docs     sequence of [uri, val, g]: retrieval or given URI (code points, *)
(*            <<-1>> when none), document, dialect                            *)
(*   custom   optional; dialect name -> keyword -> <<kind, tag>>, for keywords *)
(*            that are not standard ones: see Kw in Eval                      *)
(* A location is [d, p, r, g]: document, path of the schema, path of the root *)
(* of its resource, dialect.  Paths are sequences of strings.                 *)
EXTENDS JM, Uri, TLC

P == INSTANCE Pointer
FragmentTokens(f) == P!Parse(P!PctDecode(f))

RECURSIVE MapN(_, _, _, _), FlatN(_, _, _, _)
MapN(F(_), n, k, acc) == IF n > k THEN acc ELSE MapN(F, n + 1, k, Append(acc, F(n)))
Map(F(_), k) == MapN(F, 1, k, <<>>)
FlatN(F(_), n, k, acc) == IF n > k THEN acc ELSE FlatN(F, n + 1, k, acc \o F(n))
Flat(F(_), k) == FlatN(F, 1, k, <<>>)

InSeq(x, s) == \E j \in 1..Len(s) : s[j] = x

One19 == <<"not", "if", "then", "else", "contains", "additionalProperties", "unevaluatedProperties", "propertyNames",
           "items", "additionalItems", "unevaluatedItems">>
One20 == <<"not", "if", "then", "else", "contains", "additionalProperties", "unevaluatedProperties", "propertyNames",
           "items", "unevaluatedItems">>
Many19 == <<"allOf", "anyOf", "oneOf", "items">>
Many20 == <<"allOf", "anyOf", "oneOf", "prefixItems">>
Named == <<"properties", "patternProperties", "dependentSchemas", "$defs">>

IsSchema(v) == IsBool(v) \/ IsObj(v)
Has(X, g, kw) == InSeq(kw, X.kws[g])

Cus(X, g) == IF "custom" \in DOMAIN X THEN X.custom[g] ELSE <<>>
IsCus(X, g, kw) == kw \in DOMAIN Cus(X, g)

\* <<path from s, subschema>> for the immediate subschemas of s
SubsOf(X, g, s) ==
    IF ~IsObj(s) THEN <<>>
    ELSE LET of(k) ==
               LET kw == s[2][k]
                   v == s[3][k]
                   f == X.fam[g]
               IN IF IsCus(X, g, kw)
                  THEN IF X.custom[g][kw][1] = "sub" /\ IsSchema(v) THEN <<<<<<kw>>, v>>>>
                       ELSE IF X.custom[g][kw][1] = "all" /\ IsArr(v)
                       THEN LET sub(j) == <<<<kw, ToString(j - 1)>>, v[2][j]>> IN Map(sub, Len(v[2]))
                       ELSE IF X.custom[g][kw][1] = "map" /\ IsObj(v)
                       THEN LET sub(j) == <<<<kw, v[2][j]>>, v[3][j]>> IN Map(sub, Len(v[2]))
                       ELSE <<>>
                  ELSE IF ~Has(X, g, kw) THEN <<>>
                  ELSE IF IsSchema(v) /\ InSeq(kw, IF f = "2019-09" THEN One19 ELSE One20) THEN <<<<<<kw>>, v>>>>
                  ELSE IF IsArr(v) /\ InSeq(kw, IF f = "2019-09" THEN Many19 ELSE Many20)
                       THEN LET sub(j) == <<<<kw, ToString(j - 1)>>, v[2][j]>> IN Map(sub, Len(v[2]))
                  ELSE IF IsObj(v) /\ InSeq(kw, Named)
                       THEN LET sub(j) == <<<<kw, v[2][j]>>, v[3][j]>> IN Map(sub, Len(v[2]))
                  ELSE <<>>
         IN Flat(of, Len(s[2]))

Text(X, s) == X.tab[s]
StrMember(s, k) == IsObj(s) /\ HasKey(s, k) /\ IsStr(Member(s, k))

DropEmptyFragment(u) == IF u[5] = <<>> THEN [u EXCEPT ![5] = None] ELSE u

\* the dialect of an embedded schema with its own $schema
DialectOf(X, s, g) ==
    IF StrMember(s, "$schema") /\ Member(s, "$schema")[2] \in DOMAIN X.bymeta THEN X.bymeta[Member(s, "$schema")[2]] ELSE g

\* every schema in a document: [loc, base, id], base the URI (components) of its resource or None2
None2 == <<None, None, <<>>, None, None>>
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(X, s, d, p, r, g0, base0) ==
    LET g == DialectOf(X, s, g0)
        hasid == StrMember(s, "$id") /\ Has(X, g, "$id")
        u == Parse(Text(X, Member(s, "$id")[2]))
        base == IF ~hasid THEN base0
                ELSE DropEmptyFragment(IF base0 = None2 THEN u ELSE Resolve(base0, u))
        r1 == IF hasid THEN p ELSE r
        me == [d |-> d, p |-> p, r |-> r1, g |-> g]
        subs == SubsOf(X, g, s)
        below(k) == Walk(X, subs[k][2], d, p \o subs[k][1], r1, g, base)
    IN <<[loc |-> me, base |-> base, s |-> s]>> \o Flat(below, Len(subs))

WalkDoc(X, d) ==
    LET doc == X.docs[d]
    IN Walk(X, doc.val, d, <<>>, <<>>, doc.g, IF doc.uri = <<-1>> THEN None2 ELSE WithoutFragment(Parse(doc.uri)))

AllSchemas(X) == LET of(d) == WalkDoc(X, d) IN Flat(of, Len(X.docs))

\* anchors a schema declares, by dialect
AnchorsOf(X, e) ==
    LET one(kw) == IF StrMember(e.s, kw) /\ Has(X, e.loc.g, kw) THEN {<<Text(X, Member(e.s, kw)[2]), kw>>} ELSE {}
    IN one("$anchor") \cup one("$dynamicAnchor")

SameRes(a, b) == a.d = b.d /\ a.r = b.r
IsRoot(e) == e.loc.p = e.loc.r

(* -------------------------------- looking up -------------------------------- *)
\* descend by pointer tokens (code points); the member names met
RECURSIVE Down(_, _, _, _)
Down(X, v, toks, acc) ==
    IF toks = <<>> THEN <<"ok", acc>>
    ELSE LET t == Head(toks)
         IN IF IsObj(v)
            THEN LET S == {k \in 1..Len(v[2]) : Text(X, v[2][k]) = t}
                 IN IF S = {} THEN <<"none">>
                    ELSE LET k == CHOOSE k \in S : TRUE IN Down(X, v[3][k], Tail(toks), Append(acc, v[2][k]))
            ELSE IF IsArr(v)
            THEN LET S == {k \in 1..Len(v[2]) : P!IndexToken(k - 1) = t}
                 IN IF S = {} THEN <<"none">>
                    ELSE LET k == CHOOSE k \in S : TRUE IN Down(X, v[2][k], Tail(toks), Append(acc, ToString(k - 1)))
            ELSE <<"none">>

RECURSIVE At(_, _)
At(v, p) == IF p = <<>> THEN v
            ELSE IF IsObj(v) THEN At(Member(v, Head(p)), Tail(p))
            ELSE At(v[2][1 + (CHOOSE n \in 0..Len(v[2]) : ToString(n) = Head(p))], Tail(p))

\* what an absolute URI (components) refers to, among the schemas E of X: <<"ok", loc>> or <<"none">>
Lookup(X, E, u) ==
    LET b == Normal(WithoutFragment(u))
        roots == {k \in 1..Len(E) : IsRoot(E[k]) /\ E[k].base # None2 /\ Normal(E[k].base) = b}
    IN IF roots = {} THEN <<"none">>
       ELSE LET e == E[CHOOSE k \in roots : TRUE]
                f == u[5]
            IN IF f = None \/ f = <<>> THEN <<"ok", e.loc>>
               ELSE IF f[1] = 47
                    THEN LET q == FragmentTokens(f)
                         IN IF q[1] # "ok" THEN <<"none">>
                            ELSE LET w == Down(X, e.s, q[2], <<>>)
                                 IN IF w[1] # "ok" THEN <<"none">>
                                    ELSE LET p == e.loc.p \o w[2]
                                             S == {k \in 1..Len(E) : E[k].loc.d = e.loc.d /\ E[k].loc.p = p}
                                         IN IF S = {} THEN <<"none">> ELSE <<"ok", E[CHOOSE k \in S : TRUE].loc>>
               ELSE LET S == {k \in 1..Len(E) : /\ SameRes(E[k].loc, e.loc)
                                                /\ \E a \in AnchorsOf(X, E[k]) : a[1] = f}
                    IN IF S = {} THEN <<"none">> ELSE <<"ok", E[CHOOSE k \in S : TRUE].loc>>

(* ------------------------------ the whole index ------------------------------ *)
RefKws(X, e) ==
    LET one(kw) == IF StrMember(e.s, kw) /\ Has(X, e.loc.g, kw) THEN <<kw>> ELSE <<>>
    IN IF ~IsObj(e.s) THEN <<>> ELSE one("$ref") \o one("$dynamicRef") \o one("$recursiveRef")

RefUri(X, e, kw) ==
    LET u == Parse(Text(X, Member(e.s, kw)[2]))
    IN IF HasAbsoluteBase(u) THEN u ELSE Resolve(e.base, u)

\* references as a function from <<document, path, keyword>> to Lookup results
Refs(X, E) ==
    LET keys == UNION {{<<E[k].loc.d, E[k].loc.p, kw>> : kw \in {RefKws(X, E[k])[j] : j \in 1..Len(RefKws(X, E[k]))}} : k \in 1..Len(E)}
        ent(key) == E[CHOOSE k \in 1..Len(E) : E[k].loc.d = key[1] /\ E[k].loc.p = key[2]]
    IN [key \in keys |-> Lookup(X, E, RefUri(X, ent(key), key[3]))]

\* the dynamic anchor a $dynamicRef names, when its target was found by that anchor; else <<>>
DynName(X, e, loc) ==
    LET u == RefUri(X, e, "$dynamicRef")
        t == At(X.docs[loc.d].val, loc.p)
    IN IF u[5] # None /\ u[5] # <<>> /\ StrMember(t, "$dynamicAnchor") /\ Text(X, Member(t, "$dynamicAnchor")[2]) = u[5]
       THEN u[5] ELSE <<>>

\* everything an evaluation needs to know about the documents
Index(X) ==
    LET E == AllSchemas(X)
        refs == Refs(X, E)
        dynkeys == {key \in DOMAIN refs : key[3] = "$dynamicRef" /\ refs[key][1] = "ok"}
        ent(key) == E[CHOOSE k \in 1..Len(E) : E[k].loc.d = key[1] /\ E[k].loc.p = key[2]]
        roots == {k \in 1..Len(E) : IsRoot(E[k])}
    IN [ents |-> E,
        refs |-> refs,
        dyn |-> [key \in dynkeys |-> DynName(X, ent(key), refs[key][2])],
        \* dynamic anchors of each resource
        anch |-> UNION {{<<E[k].loc.d, E[k].loc.r, a[1], E[k].loc>> : a \in {b \in AnchorsOf(X, E[k]) : b[2] = "$dynamicAnchor"}} : k \in 1..Len(E)},
        \* resources whose root has $recursiveAnchor: true
        rec |-> {<<E[k].loc.d, E[k].loc.r>> : k \in {j \in roots : IsObj(E[j].s) /\ HasKey(E[j].s, "$recursiveAnchor")
                                                         /\ Has(X, E[j].loc.g, "$recursiveAnchor")
                                                         /\ Member(E[j].s, "$recursiveAnchor") = BoolV(TRUE)}},
        base |-> [q \in {<<E[k].loc.d, E[k].loc.r>> : k \in roots} |->
                    LET e == E[CHOOSE k \in roots : E[k].loc.d = q[1] /\ E[k].loc.r = q[2]] IN e.base]]

Unresolved(ix) == {key \in DOMAIN ix.refs : ix.refs[key][1] # "ok"}
=============================================================================
