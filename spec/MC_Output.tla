------------------------------- MODULE MC_Output -------------------------------
(* Laws of the output formats, over the result trees of every schema of the      *)
(* scope of MC_Eval on every instance: the formats agree with each other, with    *)
(* the verdict and with the annotations that are collected.                       *)
EXTENDS MC_Eval, Output

RECURSIVE PathText(_)
PathText(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o PathText(Tail(p))

\* an evaluated node as a node of Output.tla; a failing keyword has an error unless what failed is below it
RECURSIVE ToOut(_, _, _)
ToOut(n, kp, app) ==
    LET sub(k) == ToOut(n.c[k], Append(kp, n.c[k].k), FALSE)
        kids == Map(sub, Len(n.c))
    IN [k |-> n.k, kp |-> PathText(kp), ip |-> PathText(n.i), au |-> PathText(n.u.p), v |-> n.v, ps |-> n.v \/ ~n.as,
        a |-> IF n.v /\ n.an # <<>> THEN <<Str(ToString(n.an))>> ELSE <<>>,
        e |-> IF n.v THEN <<>> ELSE <<Str("no")>>,
        app |-> n.k \notin {"allOf", "anyOf", "oneOf", "properties", "patternProperties", "dependentSchemas", "prefixItems"}
                /\ ~(n.k = "items" /\ \E k \in 1..Len(n.c) : n.c[k].k \in {"0", "1"}),
        sch |-> TRUE, c |-> kids]

RECURSIVE NodesOf(_), Leaves(_), Count(_), VCount(_)
\* the nodes that lead to the outcome
NodesOf(n) == {n} \cup UNION {IF Relevant(n, k, n.v) THEN NodesOf(n.c[k]) ELSE {} : k \in 1..Len(n.c)}
Count(n) == LET one(k) == <<Count(n.c[k])>>
                RECURSIVE Sum(_)
                Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
            IN 1 + Sum(Flat(one, Len(n.c)))
SubUnits(o) == IF HasKey(o, "errors") THEN Member(o, "errors")[2] ELSE IF HasKey(o, "annotations") THEN Member(o, "annotations")[2] ELSE <<>>
VCount(o) == LET one(k) == <<VCount(SubUnits(o)[k])>>
                 RECURSIVE Sum(_)
                 Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
             IN 1 + Sum(Flat(one, Len(SubUnits(o))))
Leaves(o) == IF SubUnits(o) = <<>> THEN {o} ELSE UNION {Leaves(SubUnits(o)[k]) : k \in 1..Len(SubUnits(o))}

Views == \A j \in 1..Len(Inst) :
    LET e == Ev(s, Inst[j])
        n == ToOut(e, <<>>, TRUE)
        flag == Flag(n)
        basic == BasicUnits(n, n.v, <<>>)
        detailed == Detailed(n)
        verbose == Verbose(n)
        B == Range(basic)
    IN /\ Member(flag, "valid") = BoolV(e.v)
       /\ Member(detailed, "valid") = BoolV(e.v)
       /\ Member(verbose, "valid") = BoolV(e.v)
       \* one unit for every node
       /\ VCount(verbose) = Count(n)
       \* a failure is always explained
       /\ ~e.v => basic # <<>> /\ (e.c = <<>> \/ SubUnits(detailed) # <<>>)
       \* the annotations listed are exactly those collected
       /\ e.v => Len(basic) = Len(Notes(s, Inst[j]))
       /\ e.v => Bag(Map(LAMBDA k : Member(basic[k], "annotation"), Len(basic))) = Bag(Map(LAMBDA k : Str(ToString(Notes(s, Inst[j])[k][3])), Len(basic)))
       \* every leaf of the condensed view that says something is listed in the flat one
       /\ \A u \in Leaves(detailed) : (HasKey(u, "error") \/ HasKey(u, "annotation")) => u \in B
       \* and what explains the outcome at the bottom is shown there
       /\ \A x \in NodesOf(n) \ {n} : (Msg(x, n.v) # <<>> /\ \A k \in 1..Len(x.c) : ~Relevant(x, k, n.v))
                                       => Unit(x, <<MsgKey(n.v)>>, Msg(x, n.v)) \in Leaves(detailed)
       \* nothing is listed twice
       /\ Cardinality(B) = Len(basic)
       \* a filter by all keywords is no filter; by none, nothing is left
       /\ BasicUnits(n, n.v, <<{x.k : x \in NodesOf(n)}>>) = basic
       /\ BasicUnits(n, n.v, <<{}>>) = <<>>
=============================================================================
