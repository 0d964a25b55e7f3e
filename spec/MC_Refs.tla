-------------------------------- MODULE MC_Refs --------------------------------
(* References as a machine that walks a network of schema resources.  A resource *)
(* has two schemas, its root and a definition x; each refers to one other schema, *)
(* from under a property ("p": one step down the instance) or in place ("in").   *)
(* The network is chosen while it is walked, so every behaviour is one network    *)
(* with the path of evaluation through the part of it that matters.               *)
(*   a    where a resource carries the anchor n: "none", "root" or "x" (dynamic), *)
(*        "plain" (x, by $anchor), "both" (x, by $anchor, and another dynamic one)*)
(*        in 2019-09 the $recursiveAnchor of its root: "none", "true", "false"    *)
(*   form <<kind, resource, via>>:                                                *)
(*        ref  $ref rj          refx $ref rj#/$defs/x     refn $ref rj#n          *)
(*        dyn  $dynamicRef rj#n dynx $dynamicRef rj#/$defs/x   rec $recursiveRef # *)
(* The dynamic scope is the sequence of the resources entered.                    *)
(* Laws: what the walk says is what Eval says of the documents (Agrees); once a    *)
(* dynamic anchor is bound, it stays bound on that path (Sticky); the binding is   *)
(* that of the static target or of the outermost resource (Binding).              *)
EXTENDS Eval, Dialects, Json

CONSTANTS Fam, Anchors, Kinds, Vias, MaxRes, MaxSteps, Emit

Root(r) == <<r, "root">>
Open == <<"?", 0, "p">>

VARIABLES net,      \* sequence of resources [a, root, x]
          at,       \* the schema reached
          scope,    \* resources entered, outermost first
          here,     \* schemas met at this instance
          depth,    \* of the instance
          trail,    \* <<depth, schema>> so far
          bound     \* what references to dynamic anchors were bound to
vars == <<net, at, scope, here, depth, trail, bound>>

FormOf(m, node) == IF node[2] = "root" THEN m[node[1]].root ELSE m[node[1]].x
Carrier(m, r) == IF m[r].a = "root" THEN Root(r) ELSE <<r, "x">>
IsDynamic(a) == a \in {"root", "x", "true"}
Carries(a) == a \in {"root", "x", "plain", "both"}
HasN(kind) == kind \in {"refn", "dyn"}

StaticOf(m, node, f) ==
    CASE f[1] = "ref" -> Root(f[2])
      [] f[1] \in {"refx", "dynx"} -> <<f[2], "x">>
      [] f[1] = "rec" -> Root(node[1])
      [] OTHER -> Carrier(m, f[2])
Dynamic(m, node, f) == (f[1] = "dyn" /\ IsDynamic(m[f[2]].a)) \/ (f[1] = "rec" /\ IsDynamic(m[node[1]].a))

\* the schema that reference f of node applies, when the resources in sc have been entered
Bind(m, sc, node, f) ==
    LET N == {n \in 1..Len(sc) : IsDynamic(m[sc[n]].a)}
        r == sc[CHOOSE n \in N : \A k \in N : n <= k]
    IN IF ~Dynamic(m, node, f) \/ N = {} THEN StaticOf(m, node, f)
       ELSE IF f[1] = "rec" THEN Root(r) ELSE Carrier(m, r)

Enter(sc, r) == IF \E n \in 1..Len(sc) : sc[n] = r THEN sc ELSE Append(sc, r)
\* 2019-09 does not settle what it means to enter a resource with $recursiveAnchor elsewhere than at its root
Settled(m, sc, node) == Fam = "2019-09" /\ node[2] = "x" /\ m[node[1]].a = "true" => \E n \in 1..Len(sc) : sc[n] = node[1]

\* the whole walk from a node over an instance of a given depth: <<"ok", trail>> or <<"no">>
RECURSIVE Route(_, _, _, _, _, _, _)
Route(m, sc, node, met, d, max, acc) ==
    LET f == FormOf(m, node)
        t == Bind(m, sc, node, f)
        down == f[3] = "p"
        acc2 == Append(acc, <<d, node[1], node[2]>>)
    IN IF f = Open \/ (down /\ d = max) THEN <<"ok", acc2>>
       ELSE IF (~down /\ t \in met) \/ ~Settled(m, sc, t) THEN <<"no">>
       ELSE Route(m, Enter(sc, t[1]), t, IF down THEN {t} ELSE met \cup {t}, IF down THEN d + 1 ELSE d, max, acc2)
RouteFrom(m, node, max) == IF Settled(m, <<>>, node) THEN Route(m, <<node[1]>>, node, {node}, 0, max, <<>>) ELSE <<"no">>

New(a) == [a |-> a, root |-> Open, x |-> Open]
Init == \E a \in Anchors, w \in {"root", "x"} :
            /\ net = <<New(a)>>
            /\ at = <<1, w>>
            /\ Settled(net, <<>>, at)
            /\ scope = <<1>>
            /\ here = {at}
            /\ depth = 0
            /\ trail = <<<<0, 1, w>>>>
            /\ bound = {}

Put(m, f) == IF at[2] = "root" THEN [m EXCEPT ![at[1]].root = f] ELSE [m EXCEPT ![at[1]].x = f]
Choose == /\ FormOf(net, at) = Open
          /\ Len(trail) <= MaxSteps
          /\ \E kind \in Kinds, via \in Vias :
               \/ /\ kind = "rec"
                  /\ net' = Put(net, <<"rec", 0, via>>)
               \/ /\ kind # "rec"
                  /\ \/ \E j \in 1..Len(net) :
                          /\ HasN(kind) => Carries(net[j].a)
                          /\ net' = Put(net, <<kind, j, via>>)
                     \/ \E a \in Anchors :
                          /\ Len(net) < MaxRes
                          /\ HasN(kind) => Carries(a)
                          /\ net' = Append(Put(net, <<kind, Len(net) + 1, via>>), New(a))
          /\ UNCHANGED <<at, scope, here, depth, trail, bound>>
Follow == LET f == FormOf(net, at)
              t == Bind(net, scope, at, f)
          IN /\ f # Open
             /\ Len(trail) <= MaxSteps
             /\ f[3] = "in" => t \notin here
             /\ Settled(net, scope, t)
             /\ at' = t
             /\ scope' = Enter(scope, t[1])
             /\ here' = IF f[3] = "p" THEN {t} ELSE here \cup {t}
             /\ depth' = IF f[3] = "p" THEN depth + 1 ELSE depth
             /\ trail' = Append(trail, <<depth', t[1], t[2]>>)
             /\ bound' = IF Dynamic(net, at, f) THEN bound \cup {t} ELSE bound
             /\ net' = net
Next == Choose \/ Follow

Final == Len(trail) = MaxSteps + 1 /\ (FormOf(net, at) = Open \/ FormOf(net, at)[3] = "p")

(* ------------------------------------- laws ------------------------------------- *)
Sticky == Cardinality(bound) <= 1
Binding == \A t \in bound : t = (IF Fam = "2019-09" THEN Root(t[1]) ELSE Carrier(net, t[1])) /\ IsDynamic(net[t[1]].a)
\* without dynamic anchors a reference is a static one
Plainly == (\A r \in 1..Len(net) : ~IsDynamic(net[r].a)) => bound = {}
Whole == Final => RouteFrom(net, <<trail[1][2], trail[1][3]>>, depth) = <<"ok", trail>>

(* --------------------------------- the documents --------------------------------- *)
Names_ == <<"u:/1", "u:/2", "u:/3", "u:/4">>
Frag(t) == CASE t = "" -> <<>> [] t = "#n" -> <<35, 110>> [] OTHER -> <<35, 47, 36, 100, 101, 102, 115, 47, 120>>
Uris == [r \in 1..4, t \in {"", "#n", "#/$defs/x"} |-> <<117, 58, 47, 48 + r>> \o Frag(t)]
UriName(r, t) == Names_[r] \o t
StrTab == [x \in {UriName(r, t) : r \in 1..4, t \in {"", "#n", "#/$defs/x"}} |->
              LET k == CHOOSE k \in (1..4) \X {"", "#n", "#/$defs/x"} : UriName(k[1], k[2]) = x IN Uris[k]]
Kws == UNION {{StdKws[d][k] : k \in 1..Len(StdKws[d])} : d \in DOMAIN StdKws}
FullTab == [x \in DOMAIN StrTab \cup Kws \cup {"x", "n", "m", "p", "#"} |->
                 IF x \in DOMAIN StrTab THEN StrTab[x]
                 ELSE CASE x = "x" -> <<120>> [] x = "n" -> <<110>> [] x = "m" -> <<109>> [] x = "#" -> <<35>> [] x = "p" -> <<112>>
                        [] x = "$defs" -> <<36, 100, 101, 102, 115>> [] OTHER -> <<0>>]
O(k, v) == Obj(<<k>>, <<v>>)
Join(a, b) == Obj(a[2] \o b[2], a[3] \o b[3])
S(t) == Str(t)
Nothing == Obj(<<>>, <<>>)
RefOf(f) ==
    LET u(t) == S(UriName(f[2], t))
        it == CASE f[1] = "ref" -> O("$ref", u("")) [] f[1] = "refx" -> O("$ref", u("#/$defs/x")) [] f[1] = "refn" -> O("$ref", u("#n"))
                [] f[1] = "dyn" -> O("$dynamicRef", u("#n")) [] f[1] = "dynx" -> O("$dynamicRef", u("#/$defs/x"))
                [] OTHER -> O("$recursiveRef", S("#"))
    IN IF f = Open THEN Nothing ELSE IF f[3] = "p" THEN O("properties", O("p", it)) ELSE it
Marks(a, w) ==
    CASE a = w -> O("$dynamicAnchor", S("n"))
      [] a = "plain" /\ w = "x" -> O("$anchor", S("n"))
      [] a = "both" /\ w = "x" -> Obj(<<"$anchor", "$dynamicAnchor">>, <<S("n"), S("m")>>)
      [] a \in {"true", "false"} /\ w = "root" -> O("$recursiveAnchor", BoolV(a = "true"))
      [] OTHER -> Nothing
DocOf(r) ==
    LET x == Join(O("title", NatNum(10 * r)), Join(Marks(net[r].a, "x"), RefOf(net[r].x)))
    IN Join(Obj(<<"$id", "title", "$defs">>, <<S(Names_[r]), NatNum(10 * r + 1), O("x", x)>>), Join(Marks(net[r].a, "root"), RefOf(net[r].root)))

RECURSIVE Nest(_), PPath(_)
Nest(d) == IF d = 0 THEN NatNum(0) ELSE O("p", Nest(d - 1))
PPath(d) == IF d = 0 THEN <<>> ELSE Append(PPath(d - 1), "p")
RECURSIVE Titles(_)
Titles(ns) == LET of(k) == (IF ns[k].k = "title" /\ ns[k].an # <<>> THEN <<<<Len(ns[k].i), ns[k].an[2]>>>> ELSE <<>>) \o Titles(ns[k].c)
              IN Flat(of, Len(ns))
Agrees == (Final /\ ~Emit) =>
    LET X0 == [tab |-> FullTab, rx |-> <<>>, fmt |-> <<<<>>>>, fam |-> StdFam, kws |-> StdKws, bymeta |-> StdMeta,
               docs |-> [r \in 1..Len(net) |-> [uri |-> Uris[r, ""], val |-> DocOf(r), g |-> Fam]], ix |-> <<>>]
        X == [X0 EXCEPT !.ix = Index(X0)]
        loc(r, w) == [d |-> r, p |-> IF w = "x" THEN <<"$defs", "x">> ELSE <<>>, r |-> <<>>, g |-> Fam]
        mark(s) == <<s[1], NatNum(10 * s[2] + (IF s[3] = "root" THEN 1 ELSE 0))>>
    IN \A r \in 1..Len(net), w \in {"root", "x"} :
         LET k == RouteFrom(net, <<r, w>>, depth)
             e == Evaluate(X, loc(r, w), Nest(depth), <<>>)
         IN k[1] = "ok" => e.v /\ Titles(e.c) = [n \in 1..Len(k[2]) |-> mark(k[2][n])]

(* ------------------------------------- cases ------------------------------------- *)
Case == (Final /\ Emit) =>
    PrintT("VCASE " \o ToJson([net |-> net, depth |-> depth, dyn |-> Cardinality(bound),
                               moved |-> \E t \in bound : \E r \in 1..Len(net) : t[1] # r /\ \E w \in {"root", "x"} : FormOf(net, <<r, w>>)[1] \in {"dyn", "rec"},
                               walks |-> [k \in 1..(2 * Len(net)) |->
                                           LET n == <<(k + 1) \div 2, IF k % 2 = 1 THEN "root" ELSE "x">>
                                               w == RouteFrom(net, n, depth)
                                           IN <<n, IF w[1] = "ok" THEN w[2] ELSE <<>>>>]]))
=============================================================================
