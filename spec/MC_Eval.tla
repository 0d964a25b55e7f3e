-------------------------------- MODULE MC_Eval --------------------------------
(* Laws of the evaluation of schemas, over all schemas of a small scope.  A      *)
(* behaviour starts from a schema of one keyword and adds keywords to it or      *)
(* wraps it; every schema reached is a case: it and the schemas that must agree  *)
(* with it (Variants) are printed with the specified verdicts, to be replayed on *)
(* the real code.                                                                *)
(* Group selects the keywords: "assert", "apply", "uneval", "note".              *)
EXTENDS Eval, Dialects, Json

CONSTANTS Group, Dials, MaxAdd, MaxWrap, Emit

(* ---------------------------------- writing schemas ---------------------------------- *)
Yes == BoolV(TRUE)
No == BoolV(FALSE)
N(n) == NatNum(n)
Half == <<"n", 0, <<5>>, -1>>
Neg == <<"n", 1, <<1>>, 0>>
O(k, v) == Obj(<<k>>, <<v>>)
O2(k, v, k2, v2) == Obj(<<k, k2>>, <<v, v2>>)
Join(a, b) == Obj(a[2] \o b[2], a[3] \o b[3])
A(s) == Arr(s)
S(t) == Str(t)
Type(t) == O("type", S(t))
Whole == Type("integer")
Title(t) == O("title", S(t))

Tab == [x \in {"", "a", "b", "c", "ab", "^a", "b$", "#/$defs/x", "t", "u", "integer", "string", "object", "array", "number", "null"} |->
          CASE x = "" -> <<>> [] x = "a" -> <<97>> [] x = "b" -> <<98>> [] x = "c" -> <<99>> [] x = "ab" -> <<97, 98>>
            [] x = "#/$defs/x" -> <<35, 47, 36, 100, 101, 102, 115, 47, 120>>
            [] OTHER -> <<0>>]
Rx == [x \in {"^a", "b$"} |-> IF x = "^a" THEN <<"seq", <<<<"bol">>, <<"ch", <<<<97, 97>>>>>>>>>>
                              ELSE <<"seq", <<<<"ch", <<<<98, 98>>>>>>, <<"eol">>>>>>]
\* every member name has code points; only those that the pointer #/$defs/x meets matter
Kws == UNION {{StdKws[d][k] : k \in 1..Len(StdKws[d])} : d \in DOMAIN StdKws}
FullTab == [x \in DOMAIN Tab \cup Kws \cup {"x", "x-note"} |->
                 IF x \in DOMAIN Tab THEN Tab[x]
                 ELSE IF x = "x" THEN <<120>> ELSE IF x = "$defs" THEN <<36, 100, 101, 102, 115>> ELSE <<0>>]

(* ---------------------------------- the scope ---------------------------------- *)
\* keywords that can be added: <<keyword, value>>
AssertAdds ==
    <<O("type", S("integer")), O("type", A(<<S("string"), S("null")>>)), O("type", S("object")), O("enum", A(<<N(1), S("ab"), Null, A(<<>>)>>)),
      O("const", N(1)), O("const", O("a", N(1))), O("multipleOf", Half), O("maximum", N(1)), O("exclusiveMaximum", N(1)),
      O("minimum", N(1)), O("exclusiveMinimum", N(0)), O("maxLength", N(1)), O("minLength", N(1)), O("pattern", S("^a")),
      O("pattern", S("b$")), O("maxItems", N(1)), O("minItems", N(1)), O("uniqueItems", Yes), O("uniqueItems", No),
      O("maxProperties", N(1)), O("minProperties", N(1)), O("required", A(<<S("a")>>)), O("required", A(<<>>)),
      O("dependentRequired", O("a", A(<<S("b")>>)))>>
AssertInst == <<Null, Yes, No, N(0), N(1), N(2), <<"n", 0, <<1, 0>>, -1>>, Half, Neg, S(""), S("ab"), S("b"), A(<<>>), A(<<N(1)>>),
                A(<<N(1), <<"n", 0, <<1, 0>>, -1>>>>), A(<<No, N(0)>>), Obj(<<>>, <<>>), O("a", N(1)), O2("a", N(1), "b", N(1)), O("b", Null)>>

ApplyAdds(g) ==
    <<O("allOf", A(<<Whole, O("minimum", N(1))>>)), O("anyOf", A(<<Whole, Type("string")>>)), O("oneOf", A(<<Whole, O("minimum", N(1)), No>>)),
      O("not", Whole), O("if", O("minimum", N(1))), O("then", Whole), O("else", No), O("dependentSchemas", O2("a", O("required", A(<<S("b")>>)), "c", No)),
      O("properties", O2("a", Whole, "b", No)), O("patternProperties", O2("^a", O("minimum", N(1)), "b$", Type("string"))),
      O("additionalProperties", Whole), O("additionalProperties", No), O("propertyNames", O("maxLength", N(1))),
      O("contains", Whole), O("minContains", N(0)), O("minContains", N(2)), O("maxContains", N(1))>>
    \o (IF g = "2019-09"
        THEN <<O("items", A(<<Whole, Type("string")>>)), O("additionalItems", Whole), O("additionalItems", No), O("items", Whole)>>
        ELSE <<O("prefixItems", A(<<Whole, Type("string")>>)), O("items", Whole), O("items", No)>>)
ApplyInst == <<Null, N(0), N(1), Half, S("ab"), A(<<>>), A(<<N(1)>>), A(<<N(1), S("a")>>), A(<<N(1), S("a"), N(0)>>), A(<<S("a"), N(1), N(1)>>),
               Obj(<<>>, <<>>), O("a", N(1)), O("a", S("b")), O2("a", N(0), "b", S("a")), O2("c", N(1), "ab", N(1)), O("ab", S("a"))>>

UnevalAdds(g) ==
    <<O("properties", O2("a", Yes, "b", Whole)), O("patternProperties", O("^a", Whole)), O("additionalProperties", Type("string")),
      O("contains", Whole), O("minContains", N(0)),
      O("unevaluatedProperties", Whole), O("unevaluatedProperties", No), O("unevaluatedItems", Whole), O("unevaluatedItems", No),
      O("if", O("properties", O("a", Whole))), O("then", O("properties", O("b", Yes))), O("else", O("properties", O("c", Yes))),
      O("dependentSchemas", O("a", O("properties", O("c", Yes)))),
      O("anyOf", A(<<O("properties", O("a", Whole)), O("properties", O("b", Yes))>>)),
      O("oneOf", A(<<O("required", A(<<S("a")>>)), Join(O("required", A(<<S("b")>>)), O("properties", O("b", Yes)))>>)),
      O("not", O("properties", O("a", No)))>>
    \o (IF g = "2019-09"
        THEN <<O("items", A(<<Whole>>)), O("additionalItems", Whole), O("items", Whole),
               O("allOf", A(<<O("items", A(<<Yes, Yes>>))>>)), O("anyOf", A(<<O("items", A(<<Whole, Whole>>)), O("items", A(<<Yes>>))>>))>>
        ELSE <<O("prefixItems", A(<<Whole>>)), O("items", Whole),
               O("allOf", A(<<O("prefixItems", A(<<Yes, Yes>>))>>)), O("anyOf", A(<<O("prefixItems", A(<<Whole, Whole>>)), O("contains", Type("string"))>>))>>)
UnevalInst == <<N(1), A(<<>>), A(<<N(1)>>), A(<<S("a"), N(1)>>), A(<<N(1), N(1), S("a")>>), A(<<N(1), S("a"), S("a")>>),
                Obj(<<>>, <<>>), O("a", N(1)), O("a", S("b")), O("b", N(1)), O2("a", N(1), "b", N(0)), O2("c", N(1), "a", S("b")),
                O2("ab", N(1), "b", N(1)), O("c", S("a"))>>

NoteAdds(g) ==
    <<Title("t"), O("description", S("u")), O("default", N(1)), O("examples", A(<<N(1)>>)), O("x-note", Obj(<<>>, <<>>)),
      O("properties", O2("a", Join(Title("t"), Whole), "b", Title("u"))), O("patternProperties", O("^a", Title("t"))),
      O("additionalProperties", Join(Whole, Title("t"))), O("contains", Join(Whole, Title("t"))), O("if", Join(Title("t"), Whole)), O("then", Title("u")), O("else", Title("a")),
      O("anyOf", A(<<Join(Title("t"), Whole), Join(Title("u"), O("minimum", N(1)))>>)), O("oneOf", A(<<Join(Whole, Title("t")), Join(Title("u"), Type("array"))>>)),
      O("not", Join(Title("t"), Type("null"))), O("dependentSchemas", O("a", Title("t"))), O("propertyNames", Title("t")),
      O("unevaluatedItems", Title("u")), O("unevaluatedProperties", Title("u")),
      O("type", A(<<S("integer"), S("array"), S("object")>>)), O("contentMediaType", S("t")), O("contentSchema", Whole),
      O("allOf", A(<<Title("t"), Join(Title("u"), O("properties", O("a", Title("a"))))>>))>>
    \o (IF g = "2019-09"
        THEN <<O("items", A(<<Title("t"), Join(Title("u"), Whole)>>)), O("additionalItems", Title("a"))>>
        ELSE <<O("prefixItems", A(<<Title("t"), Join(Title("u"), Whole)>>)), O("items", Title("a"))>>)
NoteInst == <<Null, N(1), S("ab"), A(<<>>), A(<<N(1), N(1)>>), A(<<S("a"), N(1), Half>>), Obj(<<>>, <<>>), O("a", N(1)), O2("a", S("b"), "b", N(1)),
              O2("c", N(1), "ab", S("a"))>>

Adds(g) == CASE Group = "assert" -> AssertAdds [] Group = "apply" -> ApplyAdds(g) [] Group = "uneval" -> UnevalAdds(g) [] OTHER -> NoteAdds(g)
Inst == CASE Group = "assert" -> AssertInst [] Group = "apply" -> ApplyInst [] Group = "uneval" -> UnevalInst [] OTHER -> NoteInst

\* ways to put a schema into another one
WrapsOf(g, s) ==
    IF Group = "assert" THEN <<O("items", s), O("properties", O("a", s)), O("contains", s)>>
    ELSE IF Group = "uneval"
    THEN <<O("allOf", A(<<s>>)), O("anyOf", A(<<s, O("properties", O("c", Yes))>>)), O("not", O("not", s)), O("if", s),
           Join(O("if", s), O("else", O("properties", O2("a", Yes, "b", Yes)))), O("dependentSchemas", O("a", s)), O("properties", O("a", s)), O("items", s)>>
    ELSE <<O("allOf", A(<<s, Title("a")>>)), O("anyOf", A(<<s, Type("null")>>)), O("oneOf", A(<<s, Whole>>)), O("not", s),
           O2("if", s, "then", Title("u")), O2("if", s, "else", Whole), O("properties", O("a", s)), O("additionalProperties", s), O("contains", s),
           O("unevaluatedProperties", s), IF g = "2019-09" THEN O("items", A(<<s>>)) ELSE O("prefixItems", A(<<s>>)), O("dependentSchemas", O("a", s))>>

Range(f) == {f[k] : k \in DOMAIN f}

VARIABLES g, s, na, nw
vars == <<g, s, na, nw>>

Rank(m) == CHOOSE k \in 1..Len(Adds(g)) : Adds(g)[k] = m
KwIn(m) == HasKey(s, m[2][1])

Init == /\ g \in Dials
        /\ s \in {Adds(g)[k] : k \in 1..Len(Adds(g))}
        /\ na = 1
        /\ nw = 0
Add == /\ nw = 0
       /\ na < MaxAdd
       /\ \E k \in 1..Len(Adds(g)) :
            /\ ~HasKey(s, Adds(g)[k][2][1])
            \* each combination once
            /\ \A j \in 1..Len(s[2]) : \E m \in 1..(k - 1) : Adds(g)[m] = O(s[2][j], s[3][j])
            /\ s' = Join(s, Adds(g)[k])
       /\ na' = na + 1
       /\ UNCHANGED <<g, nw>>
Wrap == /\ nw < MaxWrap
        /\ \E k \in 1..Len(WrapsOf(g, s)) : s' = WrapsOf(g, s)[k]
        /\ nw' = nw + 1
        /\ UNCHANGED <<g, na>>
Next == Add \/ Wrap

(* ---------------------------------- evaluating ---------------------------------- *)
X0(d, q) == [tab |-> FullTab, rx |-> Rx, fmt |-> <<<<>>>>, fam |-> StdFam, kws |-> StdKws, bymeta |-> StdMeta,
             docs |-> <<[uri |-> <<117, 58, 47>>, val |-> q, g |-> d]>>, ix |-> <<>>]
Loc0(d) == [d |-> 1, p |-> <<>>, r |-> <<>>, g |-> d]
RECURSIVE RefFree(_)
RefFree(q) == CASE q[1] = "a" -> \A k \in 1..Len(q[2]) : RefFree(q[2][k])
                [] q[1] = "o" -> \A k \in 1..Len(q[2]) : q[2][k] # "$ref" /\ RefFree(q[3][k])
                [] OTHER -> TRUE
XOf(d, q) == IF RefFree(q) THEN X0(d, q) ELSE [X0(d, q) EXCEPT !.ix = Index(X0(d, q))]
Ev(q, i) == Evaluate(XOf(g, q), Loc0(g), i, <<>>)
Ok(q, i) == Ev(q, i).v

Rev(q) == IF ~IsObj(q) THEN q
          ELSE LET n == Len(q[2]) IN Obj([k \in 1..n |-> q[2][n + 1 - k]], [k \in 1..n |-> q[3][n + 1 - k]])
Def(q, body) == Join(O("$defs", O("x", q)), body)
ToX == O("$ref", S("#/$defs/x"))
RefTo(q) == Def(q, ToX)
NotS(q) == O("not", q)

\* <<how it compares, schema>>: "eq" the same verdict, "ne" the opposite one,
\* "arr" / "obj" the same verdict on an array / object holding just the instance
Variants(q) ==
    <<<<"eq", q>>, <<"eq", O("allOf", A(<<q>>))>>, <<"eq", O("anyOf", A(<<q>>))>>, <<"eq", O("oneOf", A(<<q>>))>>, <<"eq", NotS(NotS(q))>>,
      <<"eq", RefTo(q)>>, <<"eq", O("allOf", A(<<Yes, q, q>>))>>, <<"eq", O("anyOf", A(<<No, q>>))>>, <<"eq", O("anyOf", A(<<q, q>>))>>,
      <<"eq", O("oneOf", A(<<No, q>>))>>, <<"eq", O2("if", Yes, "then", q)>>, <<"eq", O2("if", No, "else", q)>>,
      <<"eq", O2("if", q, "else", No)>>, <<"eq", Join(O2("if", q, "then", q), O("else", No))>>,
      <<"ne", NotS(q)>>, <<"ne", O2("if", q, "then", No)>>, <<"ne", O("oneOf", A(<<q, Yes>>))>>, <<"ne", Def(q, NotS(ToX))>>,
      <<"arr", O("items", q)>>, <<"arr", IF g = "2019-09" THEN O("items", A(<<q>>)) ELSE O("prefixItems", A(<<q>>))>>, <<"arr", O("contains", q)>>,
      <<"arr", O("unevaluatedItems", q)>>,
      <<"obj", O("properties", O("a", q))>>, <<"obj", O("additionalProperties", q)>>, <<"obj", O("patternProperties", O("^a", q))>>,
      <<"obj", O("unevaluatedProperties", q)>>>>
    \o (IF IsObj(q) THEN <<<<"eq", Rev(q)>>>> ELSE <<>>)

(* ------------------------------------- laws ------------------------------------- *)
Lift(how, i) == IF how = "arr" THEN A(<<i>>) ELSE IF how = "obj" THEN O("a", i) ELSE i
Agree == LET want == [n \in 1..Len(Inst) |-> Ok(s, Inst[n])]
             one(w) == LET x == XOf(g, w[2])
                       IN \A n \in 1..Len(Inst) : Evaluate(x, Loc0(g), Lift(w[1], Inst[n]), <<>>).v = (want[n] # (w[1] = "ne"))
         IN \A w \in Range(Variants(s)) : one(w)

\* assertions are independent of each other
Conjunction == (Group = "assert" /\ nw = 0) =>
    \A n \in 1..Len(Inst) : Ok(s, Inst[n]) = \A k \in 1..Len(s[2]) : Ok(O(s[2][k], s[3][k]), Inst[n])

\* keyed annotations that are collected
RECURSIVE Keyed(_)
Keyed(ns) == LET of(k) == IF ~ns[k].v \/ ns[k].d THEN <<>>
                          ELSE (IF ns[k].an # <<>> THEN <<<<ns[k].k, ns[k].i, ns[k].an>>>> ELSE <<>>) \o Keyed(ns[k].c)
             IN Flat(of, Len(ns))
Notes(q, i) == LET e == Ev(q, i) IN IF e.v THEN Keyed(e.c) ELSE <<>>
Bag(f) == [x \in {f[k] : k \in 1..Len(f)} |-> Cardinality({k \in 1..Len(f) : f[k] = x})]
\* names are annotated as a set, so their order is immaterial
Loose(f) == LET one(k) == IF f[k][3][1] = "s" THEN <<f[k][1], f[k][2], {f[k][3][2][j] : j \in 1..Len(f[k][3][2])}>> ELSE f[k] IN Map(one, Len(f))
Notices == \A n \in 1..Len(Inst) :
    LET i == Inst[n]
        mine == Notes(s, i)
    IN /\ ~Ok(s, i) => mine = <<>>
       /\ Bag(Notes(O("allOf", A(<<s>>)), i)) = Bag(mine)
       /\ Bag(Notes(O("anyOf", A(<<No, s>>)), i)) = Bag(mine)
       /\ Bag(Notes(RefTo(s), i)) = Bag(mine)
       /\ Bag(Notes(O("if", s), i)) = Bag(mine)
       /\ Notes(NotS(NotS(s)), i) = <<>>
       /\ IsObj(s) => Bag(Loose(Notes(Rev(s), i))) = Bag(Loose(mine))
       /\ Bag(Notes(O("allOf", A(<<s, Whole>>)), i)) = (IF Ok(Whole, i) THEN Bag(mine) ELSE <<>>)

(* What a schema evaluates, defined without annotations: the names (indexes) of the *)
(* members (items) of i that some subschema in a passing part was applied to.       *)
RECURSIVE Evd(_, _)
Evd(q, i) ==
    IF ~IsObj(q) \/ ~Ok(q, i) THEN {}
    ELSE LET has(k) == HasKey(q, k)
             names == IF IsObj(i) THEN {i[2][k] : k \in 1..Len(i[2])} ELSE {}
             items == IF IsArr(i) THEN 0..(Len(i[2]) - 1) ELSE {}
             all == names \cup items
             m(k) == Member(q, k)
             branches(k) == IF has(k) THEN UNION {Evd(m(k)[2][j], i) : j \in 1..Len(m(k)[2])} ELSE {}
             props == IF has("properties") THEN names \cap {m("properties")[2][j] : j \in 1..Len(m("properties")[2])} ELSE {}
             pats == IF has("patternProperties")
                     THEN {x \in names : \E j \in 1..Len(m("patternProperties")[2]) : Search(Rx[m("patternProperties")[2][j]], Tab[x])} ELSE {}
             first(k) == IF has(k) /\ IsArr(m(k)) THEN {j \in items : j < Len(m(k)[2])} ELSE {}
         IN props \cup pats
            \cup (IF has("additionalProperties") THEN names ELSE {})
            \cup (IF has("unevaluatedProperties") THEN names ELSE {})
            \cup (IF has("unevaluatedItems") THEN items ELSE {})
            \cup first("prefixItems") \cup first("items")
            \cup (IF has("items") /\ ~IsArr(m("items")) THEN items ELSE {})
            \cup (IF g = "2019-09" /\ has("additionalItems") /\ has("items") /\ IsArr(m("items")) THEN items ELSE {})
            \cup (IF g # "2019-09" /\ has("contains") THEN {j \in items : Ok(m("contains"), i[2][j + 1])} ELSE {})
            \cup branches("allOf") \cup branches("anyOf") \cup branches("oneOf")
            \cup (IF has("if") THEN Evd(m("if"), i) ELSE {})
            \cup (IF has("if") /\ has("then") /\ Ok(m("if"), i) THEN Evd(m("then"), i) ELSE {})
            \cup (IF has("if") /\ has("else") /\ ~Ok(m("if"), i) THEN Evd(m("else"), i) ELSE {})
            \cup (IF has("dependentSchemas") /\ IsObj(i)
                  THEN UNION {Evd(m("dependentSchemas")[3][j], i) : j \in {k \in 1..Len(m("dependentSchemas")[2]) : HasKey(i, m("dependentSchemas")[2][k])}} ELSE {})
            \cup (IF has("$ref") THEN Evd(Member(m("$defs"), "x"), i) ELSE {})
AllOf(i) == IF IsObj(i) THEN {i[2][k] : k \in 1..Len(i[2])} ELSE IF IsArr(i) THEN 0..(Len(i[2]) - 1) ELSE {}
Seal(q) == Obj(<<"allOf", "unevaluatedProperties", "unevaluatedItems">>, <<A(<<q>>), No, No>>)
Beside(q) == IF ~IsObj(q) THEN q
             ELSE LET more(k) == IF HasKey(q, k) THEN Obj(<<>>, <<>>) ELSE O(k, No)
                  IN Join(q, Join(more("unevaluatedProperties"), more("unevaluatedItems")))
\* a cousin sees nothing
Cousin(q) == O("allOf", A(<<q, O2("unevaluatedProperties", No, "unevaluatedItems", No)>>))
Covers(i) == Ok(s, i) /\ Evd(s, i) = AllOf(i)
Leftover == \A n \in 1..Len(Inst) :
    LET i == Inst[n]
    IN /\ Ok(Seal(s), i) = Covers(i)
       /\ Ok(Def(s, Seal(ToX)), i) = Covers(i)
       /\ Ok(Seal(O("if", s)), i) = (AllOf(i) = {} \/ Covers(i))
       /\ Ok(Seal(NotS(NotS(s))), i) = (Ok(s, i) /\ AllOf(i) = {})
       /\ Ok(Cousin(s), i) = (Ok(s, i) /\ AllOf(i) = {})
       /\ (IsObj(s) /\ ~HasKey(s, "unevaluatedProperties") /\ ~HasKey(s, "unevaluatedItems")) => Ok(Beside(s), i) = Covers(i)
       /\ Ok(Join(O("allOf", A(<<s>>)), O2("unevaluatedProperties", Yes, "unevaluatedItems", Yes)), i) = Ok(s, i)

(* ------------------------------------ cases ------------------------------------ *)
Verdicts(q) == [n \in 1..Len(Inst) |-> IF Ok(q, Inst[n]) THEN 1 ELSE 0]
Extra == IF Group = "uneval" THEN <<<<"own", Seal(s)>>, <<"own", Cousin(s)>>, <<"own", Def(s, Seal(ToX))>>, <<"own", Seal(O("if", s))>>, <<"own", Beside(s)>>>>
         ELSE <<>>
Case == Emit =>
    PrintT("VCASE " \o ToJson([g |-> g, s |-> s, v |-> Verdicts(s), w |-> Variants(s) \o Extra,
                               own |-> [k \in 1..Len(Extra) |-> Verdicts(Extra[k][2])],
                               n |-> IF Group = "note" THEN [k \in 1..Len(Inst) |-> Notes(s, Inst[k])] ELSE <<>>]))
ASSUME Emit => PrintT("VINST " \o ToJson(Inst))
=============================================================================
