---------------------------------- MODULE Eval ----------------------------------
(* Evaluation of an instance by a schema, as the JSON Schema specification     *)
(* (drafts 2019-09 and 2020-12) defines it: which keyword applies which        *)
(* subschema to which instance location, what is asserted, and what is         *)
(* annotated.  The outcome is a tree of nodes                                  *)
(*   [k   last token of the evaluation path,                                   *)
(*    i   instance path,                                                       *)
(*    v   whether it is valid,   as  whether that counts as an assertion,      *)
(*    an  annotation: <<>> or <<"v", JSON value>>, <<"s", names>> (a set),     *)
(*        <<"i", indexes>> (an ascending list), <<"n", index>>, <<"t">>,       *)
(*    u   [d, r, p]: absolute location, p below the root r of the resource,    *)
(*    c   the nodes below it,                                                  *)
(*    d   whether the schema it belongs to failed at this instance location    *)
(*    ref 1 when u is the target of a reference]                               *)
EXTENDS SchemaIndex, Regex

(* --------------------------------- assertions --------------------------------- *)
TypeOk(i, t) == IF t = "integer" THEN IsNum(i) /\ IsInteger(i) ELSE TypeName(i) = t

CmpNat(n, v) == NumCmp(NatNum(n), v)

\* x is an integer multiple of y; y has at most 8 significant digits after alignment
RECURSIVE ModDigits(_, _, _), DigVal(_, _), Zeros(_, _, _)
ModDigits(d, m, acc) == IF d = <<>> THEN acc ELSE ModDigits(Tail(d), m, (acc * 10 + Head(d)) % m)
DigVal(d, acc) == IF d = <<>> THEN acc ELSE DigVal(Tail(d), acc * 10 + Head(d))
Zeros(k, m, acc) == IF k = 0 THEN acc ELSE Zeros(k - 1, m, (acc * 10) % m)
MultipleOf(x, y) ==
    LET a == Norm(x)
        b == Norm(y)
        m == DigVal(b[3], 0)
    IN IF a[3] = <<>> THEN TRUE
       ELSE IF a[4] < b[4] THEN FALSE
       ELSE Zeros(a[4] - b[4], m, ModDigits(a[3], m, 0)) = 0

Distinct(s) == \A j, k \in 1..Len(s) : j < k => ~JEq(s[j], s[k])

StrLen(X, v) == Len(Text(X, v[2]))

Assertions == <<"type", "enum", "const", "multipleOf", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum",
                "maxLength", "minLength", "pattern", "maxItems", "minItems", "uniqueItems", "maxProperties",
                "minProperties", "required", "dependentRequired">>

AppliesTo(kw, i) ==
    CASE kw \in {"multipleOf", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum"} -> IsNum(i)
      [] kw \in {"maxLength", "minLength", "pattern", "contentMediaType", "contentEncoding", "contentSchema"} -> IsStr(i)
      [] kw \in {"maxItems", "minItems", "uniqueItems", "prefixItems", "items", "additionalItems", "contains",
                 "maxContains", "minContains", "unevaluatedItems"} -> IsArr(i)
      [] kw \in {"maxProperties", "minProperties", "required", "dependentRequired", "dependentSchemas", "properties",
                 "patternProperties", "additionalProperties", "propertyNames", "unevaluatedProperties"} -> IsObj(i)
      [] OTHER -> TRUE

Asserts(X, kw, v, i) ==
    CASE kw = "type" -> IF IsStr(v) THEN TypeOk(i, v[2]) ELSE \E j \in 1..Len(v[2]) : TypeOk(i, v[2][j][2])
      [] kw = "enum" -> \E j \in 1..Len(v[2]) : JEq(i, v[2][j])
      [] kw = "const" -> JEq(i, v)
      [] kw = "multipleOf" -> MultipleOf(i, v)
      [] kw = "maximum" -> NumCmp(i, v) <= 0
      [] kw = "exclusiveMaximum" -> NumCmp(i, v) < 0
      [] kw = "minimum" -> NumCmp(i, v) >= 0
      [] kw = "exclusiveMinimum" -> NumCmp(i, v) > 0
      [] kw = "maxLength" -> CmpNat(StrLen(X, i), v) <= 0
      [] kw = "minLength" -> CmpNat(StrLen(X, i), v) >= 0
      [] kw = "pattern" -> Search(X.rx[v[2]], Text(X, i[2]))
      [] kw = "maxItems" -> CmpNat(Len(i[2]), v) <= 0
      [] kw = "minItems" -> CmpNat(Len(i[2]), v) >= 0
      [] kw = "uniqueItems" -> v[2] => Distinct(i[2])
      [] kw = "maxProperties" -> CmpNat(Len(i[2]), v) <= 0
      [] kw = "minProperties" -> CmpNat(Len(i[2]), v) >= 0
      [] kw = "required" -> \A j \in 1..Len(v[2]) : HasKey(i, v[2][j][2])
      [] kw = "dependentRequired" ->
            \A j \in 1..Len(v[2]) : HasKey(i, v[2][j]) => \A m \in 1..Len(v[3][j][2]) : HasKey(i, v[3][j][2][m][2])

Static == {"$schema", "$vocabulary", "$id", "$anchor", "$dynamicAnchor", "$recursiveAnchor", "$defs", "$comment"}
Plain == {"title", "description", "default", "deprecated", "readOnly", "writeOnly", "examples",
          "contentMediaType", "contentEncoding"}

(* ------------------------------ collecting annotations ------------------------------ *)
\* the annotations with this key at instance path ip in the passing parts of ns
RECURSIVE Collect(_, _, _)
Collect(ns, ip, key) ==
    LET of(k) == IF ~ns[k].v \/ ns[k].d THEN <<>>
                 ELSE (IF ns[k].an # <<>> /\ ns[k].k = key /\ ns[k].i = ip THEN <<ns[k].an>> ELSE <<>>)
                      \o Collect(ns[k].c, ip, key)
    IN Flat(of, Len(ns))

HasTrue(as) == \E k \in 1..Len(as) : as[k] = <<"t">>
LastIndex(as) ==
    LET S == {as[k][2] : k \in {j \in 1..Len(as) : as[j][1] = "n"}} \cup {-1}
    IN CHOOSE m \in S : \A n \in S : n <= m
Indexes(as) == UNION {{as[k][2][j] : j \in 1..Len(as[k][2])} : k \in 1..Len(as)}
Names(as) == UNION {{as[k][2][j] : j \in 1..Len(as[k][2])} : k \in 1..Len(as)}

(* --------------------------------- evaluation --------------------------------- *)
RelPath(L) == SubSeq(L.p, Len(L.r) + 1, Len(L.p))
U(L, t) == [d |-> L.d, r |-> L.r, p |-> RelPath(L) \o t]
Node(k, i, v, an, u, c) == [k |-> k, i |-> i, v |-> v, as |-> TRUE, an |-> an, u |-> u, c |-> c, d |-> FALSE, ref |-> 0]
NameSet(ns) == <<"s", ns>>

ItemPath(ip, n) == Append(ip, ToString(n))

RECURSIVE EvS(_, _, _, _, _, _), Kw(_, _, _, _, _, _, _, _), Uneval(_, _, _, _, _, _, _, _, _)

\* apply the one subschema of keyword kw (value v) to several instance nodes <<instance, path, name or index>>;
\* <<results, nodes below>>
Each(X, L, ds, sp, v, list) ==
    LET one(n) == EvS(X, v, sp, list[n][1], list[n][2], ds)
        rs == Map(one, Len(list))
        kids(n) == rs[n].c
    IN <<rs, Flat(kids, Len(list))>>

AllOk(rs) == \A n \in 1..Len(rs) : rs[n].v
Passing(rs, list) ==
    LET one(n) == IF rs[n].v THEN <<list[n][3]>> ELSE <<>> IN Flat(one, Len(list))

ItemsFrom(i, ip, start) ==      \* items with 0-based index >= start
    LET one(n) == <<i[2][start + n], ItemPath(ip, start + n - 1), start + n - 1>>
    IN IF start >= Len(i[2]) THEN <<>> ELSE Map(one, Len(i[2]) - start)

MembersNot(i, ip, ok(_)) ==     \* members whose name is not ok
    LET one(n) == IF ok(i[2][n]) THEN <<>> ELSE <<<<i[3][n], Append(ip, i[2][n]), i[2][n]>>>>
    IN Flat(one, Len(i[2]))

ContainsCount(X, s, L, i, ip, ds) ==
    LET v == Member(s, "contains")
        r == Each(X, L, ds, [L EXCEPT !.p = L.p \o <<"contains">>], v, ItemsFrom(i, ip, 0))
    IN Passing(r[1], ItemsFrom(i, ip, 0))

Target(ix, kw, L, ds) ==
    LET t == ix.refs[<<L.d, L.p, kw>>][2]
    IN IF kw = "$dynamicRef"
       THEN LET name == ix.dyn[<<L.d, L.p, kw>>]
            IN IF name = <<>> THEN t
               ELSE LET hit(n) == {a \in ix.anch : a[1] = ds[n][1] /\ a[2] = ds[n][2] /\ a[3] = name}
                        N == {n \in 1..Len(ds) : hit(n) # {}}
                    IN IF N = {} THEN t
                       ELSE LET first == CHOOSE n \in N : \A m \in N : n <= m
                            IN (CHOOSE a \in hit(first) : TRUE)[4]
       ELSE IF kw = "$recursiveRef"
       THEN IF <<t.d, t.r>> \notin ix.rec \/ t.p # t.r THEN t
            ELSE LET N == {n \in 1..Len(ds) : ds[n] \in ix.rec}
                     first == CHOOSE n \in N : \A m \in N : n <= m
                 IN IF N = {} THEN t
                    ELSE ix.ents[CHOOSE k \in 1..Len(ix.ents) :
                            ix.ents[k].loc.d = ds[first][1] /\ ix.ents[k].loc.p = ds[first][2]].loc
       ELSE t

Kw(X, s, L, i, ip, ds, kw, v) ==
    LET sub(t) == [L EXCEPT !.p = L.p \o t]
        node(vv, an, c) == <<Node(kw, ip, vv, an, U(L, <<kw>>), c)>>
        \* in-place array of subschemas
        branch(n) == LET r == EvS(X, v[2][n], sub(<<kw, ToString(n - 1)>>), i, ip, ds)
                     IN Node(ToString(n - 1), ip, r.v, <<>>, U(L, <<kw, ToString(n - 1)>>), r.c)
        passed(bs) == Cardinality({n \in 1..Len(bs) : bs[n].v})
        \* positional subschemas
        place(n) == LET r == EvS(X, v[2][n], sub(<<kw, ToString(n - 1)>>), i[2][n], ItemPath(ip, n - 1), ds)
                    IN Node(ToString(n - 1), ItemPath(ip, n - 1), r.v, <<>>, U(L, <<kw, ToString(n - 1)>>), r.c)
        named(n, inst, path) ==
            LET r == EvS(X, v[3][n], sub(<<kw, v[2][n]>>), inst, path, ds)
            IN Node(v[2][n], path, r.v, <<>>, U(L, <<kw, v[2][n]>>), r.c)
        fam == X.fam[L.g]
        cus == X.custom[L.g][kw]
        mine(vv, c) == node(vv, <<"v", Arr(<<Str(cus[2])>>)>>, c)
    IN IF IsCus(X, L.g, kw)     \* keywords that say which vocabulary they are from
       THEN CASE cus[1] = "eq" -> mine(~JEq(i, v), <<>>)
              [] cus[1] = "num" -> IF IsNum(i) THEN mine(TRUE, <<>>) ELSE <<>>
              [] cus[1] = "sub" -> LET r == EvS(X, v, sub(<<kw>>), i, ip, ds) IN mine(r.v, r.c)
              [] cus[1] = "all" -> LET bs == Map(branch, Len(v[2])) IN mine(passed(bs) = Len(bs), bs)
              [] cus[1] = "map" -> LET place2(n) == named(n, i, ip)
                                       bs == Map(place2, Len(v[2]))
                                   IN mine(passed(bs) = Len(bs), bs)
              [] cus[1] = "see" ->      \* it depends on x-a and says what became of it
                   LET it == IF ~HasKey(s, "x-a") THEN "-"
                             ELSE IF IsCus(X, L.g, "x-a") /\ JEq(i, Member(s, "x-a")) THEN "n" ELSE "y"
                   IN node(TRUE, <<"v", Arr(<<Str(cus[2]), Str(it)>>)>>, <<>>)
              [] cus[1] = "static" -> <<>>
       ELSE IF ~Has(X, L.g, kw) THEN <<[node(TRUE, <<"v", v>>, <<>>)[1] EXCEPT !.as = FALSE]>>
       ELSE IF kw \in Static \/ ~AppliesTo(kw, i) THEN <<>>
       ELSE IF InSeq(kw, Assertions) THEN node(Asserts(X, kw, v, i), <<>>, <<>>)
       ELSE IF kw \in Plain THEN node(TRUE, <<"v", v>>, <<>>)
       ELSE
       CASE kw = "contentSchema" -> IF HasKey(s, "contentMediaType") THEN node(TRUE, <<"v", v>>, <<>>) ELSE <<>>
         [] kw = "format" ->
              LET f == v[2]
                  enabled == f \in DOMAIN X.fmt[L.d]
                  covers == enabled /\ InSeq(TypeName(i), X.fmt[L.d][f].types)
                  bad == covers /\ 
                            IF f = "json-pointer" THEN P!Parse(Text(X, i[2]))[1] # "ok"
                            ELSE \E j \in 1..Len(X.fmt[L.d][f].bad) : JEq(X.fmt[L.d][f].bad[j], i)
              IN node(~bad, <<"v", v>>, <<>>)
         [] kw = "allOf" -> LET bs == Map(branch, Len(v[2])) IN node(passed(bs) = Len(bs), <<>>, bs)
         [] kw = "anyOf" -> LET bs == Map(branch, Len(v[2])) IN node(passed(bs) >= 1, <<>>, bs)
         [] kw = "oneOf" -> LET bs == Map(branch, Len(v[2])) IN node(passed(bs) = 1, <<>>, bs)
         [] kw = "not" -> LET r == EvS(X, v, sub(<<kw>>), i, ip, ds) IN node(~r.v, <<>>, r.c)
         [] kw = "if" -> LET r == EvS(X, v, sub(<<kw>>), i, ip, ds)
                         IN <<[node(r.v, <<>>, r.c)[1] EXCEPT !.as = FALSE]>>
         [] kw \in {"then", "else"} ->
              IF ~HasKey(s, "if") THEN <<>>
              ELSE IF EvS(X, Member(s, "if"), sub(<<"if">>), i, ip, ds).v # (kw = "then") THEN <<>>
              ELSE LET r == EvS(X, v, sub(<<kw>>), i, ip, ds) IN node(r.v, <<>>, r.c)
         [] kw = "dependentSchemas" ->
              LET one(n) == IF HasKey(i, v[2][n]) THEN <<named(n, i, ip)>> ELSE <<>>
                  bs == Flat(one, Len(v[2]))
                  present(n) == IF HasKey(i, v[2][n]) THEN <<v[2][n]>> ELSE <<>>
              IN node(passed(bs) = Len(bs), NameSet(Flat(present, Len(v[2]))), bs)
         [] kw = "properties" ->
              LET one(n) == IF HasKey(i, v[2][n])
                            THEN <<named(n, Member(i, v[2][n]), Append(ip, v[2][n]))>> ELSE <<>>
                  bs == Flat(one, Len(v[2]))
                  name(n) == bs[n].k
              IN node(passed(bs) = Len(bs), NameSet(Map(name, Len(bs))), bs)
         [] kw = "patternProperties" ->
              LET hits(n) == LET one(m) == IF Search(X.rx[v[2][n]], Text(X, i[2][m]))
                                           THEN <<named(n, i[3][m], Append(ip, i[2][m]))>> ELSE <<>>
                             IN Flat(one, Len(i[2]))
                  bs == Flat(hits, Len(v[2]))
                  hit(m) == IF \E n \in 1..Len(v[2]) : Search(X.rx[v[2][n]], Text(X, i[2][m])) THEN <<i[2][m]>> ELSE <<>>
              IN node(passed(bs) = Len(bs), NameSet(Flat(hit, Len(i[2]))), bs)
         [] kw = "additionalProperties" ->
              LET known(nm) == \/ /\ HasKey(s, "properties") /\ Has(X, L.g, "properties") /\ HasKey(Member(s, "properties"), nm)
                               \/ /\ HasKey(s, "patternProperties") /\ Has(X, L.g, "patternProperties")
                                  /\ \E n \in 1..Len(Member(s, "patternProperties")[2]) :
                                        Search(X.rx[Member(s, "patternProperties")[2][n]], Text(X, nm))
                  list == MembersNot(i, ip, known)
                  r == Each(X, L, ds, sub(<<kw>>), v, list)
              IN node(AllOk(r[1]), NameSet(Passing(r[1], list)), r[2])
         [] kw = "propertyNames" ->
              LET one(n) == <<Str(i[2][n]), Append(ip, i[2][n]), n>>
                  r == Each(X, L, ds, sub(<<kw>>), v, Map(one, Len(i[2])))
              IN node(AllOk(r[1]), <<>>, r[2])
         [] kw = "prefixItems" \/ (kw = "items" /\ fam = "2019-09" /\ IsArr(v)) ->
              LET m == IF Len(v[2]) < Len(i[2]) THEN Len(v[2]) ELSE Len(i[2])
                  bs == Map(place, m)
              IN node(passed(bs) = m,
                      IF m = 0 THEN <<>> ELSE IF kw = "prefixItems" /\ m = Len(i[2]) THEN <<"t">> ELSE <<"n", m - 1>>, bs)
         [] kw = "items" ->
              LET start == IF fam = "2020-12" /\ HasKey(s, "prefixItems") /\ Has(X, L.g, "prefixItems")
                           THEN Len(Member(s, "prefixItems")[2]) ELSE 0
                  list == ItemsFrom(i, ip, start)
                  r == Each(X, L, ds, sub(<<kw>>), v, list)
              IN node(AllOk(r[1]), IF list = <<>> THEN <<>> ELSE <<"t">>, r[2])
         [] kw = "additionalItems" ->
              IF ~HasKey(s, "items") \/ ~IsArr(Member(s, "items")) \/ ~Has(X, L.g, "items") THEN <<>>
              ELSE IF ~Kw(X, s, L, i, ip, ds, "items", Member(s, "items"))[1].v THEN <<>>   \* no annotation to start from
              ELSE LET list == ItemsFrom(i, ip, Len(Member(s, "items")[2]))
                       r == Each(X, L, ds, sub(<<kw>>), v, list)
                   IN node(AllOk(r[1]), IF list = <<>> THEN <<>> ELSE <<"t">>, r[2])
         [] kw = "contains" ->
              LET list == ItemsFrom(i, ip, 0)
                  r == Each(X, L, ds, sub(<<kw>>), v, list)
                  hits == Passing(r[1], list)
                  least == IF HasKey(s, "minContains") /\ Has(X, L.g, "minContains")
                           THEN CmpNat(0, Member(s, "minContains")) >= 0 ELSE FALSE
              IN node(hits # <<>> \/ least, <<"i", hits>>, r[2])
         [] kw = "maxContains" ->
              node(~HasKey(s, "contains") \/ ~Has(X, L.g, "contains") \/ CmpNat(Len(ContainsCount(X, s, L, i, ip, ds)), v) <= 0, <<>>, <<>>)
         [] kw = "minContains" ->
              node(~HasKey(s, "contains") \/ ~Has(X, L.g, "contains") \/ CmpNat(Len(ContainsCount(X, s, L, i, ip, ds)), v) >= 0, <<>>, <<>>)
         [] kw \in {"$ref", "$dynamicRef", "$recursiveRef"} ->
              LET t == Target(X.ix, kw, L, ds)
                  r == EvS(X, At(X.docs[t.d].val, t.p), t, i, ip, ds)
              IN <<[Node(kw, ip, r.v, <<>>, U(t, <<>>), r.c) EXCEPT !.ref = 1]>>
         [] OTHER -> node(TRUE, <<>>, <<>>)

\* unevaluatedItems and unevaluatedProperties, given the nodes of the adjacent keywords
Uneval(X, s, L, i, ip, ds, kw, v, ns) ==
    LET sub == [L EXCEPT !.p = L.p \o <<kw>>]
        got(key) == Collect(ns, ip, key)
        node(vv, an, c) == <<Node(kw, ip, vv, an, U(L, <<kw>>), c)>>
        fam == X.fam[L.g]
    IN IF ~AppliesTo(kw, i) THEN <<>>
       ELSE IF kw = "unevaluatedItems"
       THEN IF HasTrue(got("prefixItems")) \/ HasTrue(got("items")) \/ HasTrue(got("unevaluatedItems"))
               \/ (fam = "2019-09" /\ HasTrue(got("additionalItems"))) THEN <<>>
            ELSE LET last == LastIndex(got(IF fam = "2019-09" THEN "items" ELSE "prefixItems"))
                     cont == IF fam = "2019-09" THEN {} ELSE Indexes(got("contains"))
                     one(n) == IF n - 1 <= last \/ (n - 1) \in cont THEN <<>>
                               ELSE <<<<i[2][n], ItemPath(ip, n - 1), n - 1>>>>
                     list == Flat(one, Len(i[2]))
                     r == Each(X, L, ds, sub, v, list)
                 IN node(AllOk(r[1]), IF list = <<>> THEN <<>> ELSE <<"t">>, r[2])
       ELSE LET seen == Names(got("properties") \o got("patternProperties") \o got("additionalProperties") \o got("unevaluatedProperties"))
                known(nm) == nm \in seen
                list == MembersNot(i, ip, known)
                r == Each(X, L, ds, sub, v, list)
            IN node(AllOk(r[1]), NameSet(Passing(r[1], list)), r[2])

\* a schema: whether it is valid, and the nodes of its keywords
EvS(X, s, L0, i, ip, ds0) ==
    IF IsBool(s) THEN [v |-> s[2], c |-> <<>>]
    ELSE LET g == DialectOf(X, s, L0.g)
             L == [L0 EXCEPT !.g = g, !.r = IF HasKey(s, "$id") /\ Has(X, g, "$id") THEN L0.p ELSE L0.r]
             ds == IF Len(ds0) > 0 /\ ds0[Len(ds0)] = <<L.d, L.r>> THEN ds0 ELSE Append(ds0, <<L.d, L.r>>)
             late(k) == s[2][k] \in {"unevaluatedItems", "unevaluatedProperties"} /\ Has(X, g, s[2][k])
             early(k) == IF late(k) THEN <<>> ELSE Kw(X, s, L, i, ip, ds, s[2][k], s[3][k])
             one == Flat(early, Len(s[2]))
             rest(k) == IF late(k) THEN Uneval(X, s, L, i, ip, ds, s[2][k], s[3][k], one) ELSE <<>>
             all == one \o Flat(rest, Len(s[2]))
             ok == \A k \in 1..Len(all) : all[k].v \/ ~all[k].as
             mark(k) == [all[k] EXCEPT !.d = ~ok]
         IN [v |-> ok, c |-> Map(mark, Len(all))]

\* the schema at location loc applied to a whole instance: the root node
Evaluate(X, loc, inst, ip) ==
    LET s == At(X.docs[loc.d].val, loc.p)
        r == EvS(X, s, loc, inst, ip, <<>>)
    IN Node("", ip, r.v, <<>>, U(loc, <<>>), r.c)

\* a node that says nothing: valid, without annotation, and nothing below it does
RECURSIVE Silent(_)
Silent(n) == n.v /\ n.an = <<>> /\ \A k \in 1..Len(n.c) : Silent(n.c[k])
=============================================================================
