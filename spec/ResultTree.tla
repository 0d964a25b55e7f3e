------------------------------- MODULE ResultTree -------------------------------
(* The tree of results that keywords report to.  A state is [nodes, open, globals]:  *)
(*   nodes:   sequence of nodes by number, node 1 the root:                           *)
(*            [p, key, inst, sch, cls, rel, valid, assert, disc, drop, err, ann, ref, *)
(*             kids, mixed]                                                           *)
(*   open:    the nodes entered and not left, innermost last                          *)
(*   globals: what the nodes of the tree share                                        *)
(* Instances, schemas and classes are numbers; values are numbers, 0 for none.        *)
(* kids are in order of entry; mixed when one has taken the place of another.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Node(p, key, inst, sch, cls, rel) ==
    [p |-> p, key |-> key, inst |-> inst, sch |-> sch, cls |-> cls, rel |-> rel, valid |-> TRUE, assert |-> TRUE,
     disc |-> FALSE, drop |-> FALSE, err |-> 0, ann |-> 0, ref |-> 0, kids |-> <<>>, mixed |-> FALSE]

Root(key, inst, sch, cls, rel) ==
    [nodes |-> <<Node(0, key, inst, sch, cls, rel)>>, open |-> <<1>>, globals |-> [x \in {} |-> 0]]

Top(S) == S.open[Len(S.open)]
At(S, n, key, inst) == {k \in {S.nodes[n].kids[i] : i \in 1..Len(S.nodes[n].kids)} : S.nodes[k].key = key /\ S.nodes[k].inst = inst}
Sub(q, F(_)) == SelectSeq(q, F)

\* a subresult below the innermost one: in a schema given, or (0) further in the same one;
\* of a class given, or (0) of the same one; one subresult for a key and an instance
Enter(S, key, inst, sch, cls) ==
    LET n == Top(S)
        x == S.nodes[n]
        new == Len(S.nodes) + 1
        same == sch = 0 \/ sch = x.sch
        k == Node(n, key, inst, IF sch = 0 THEN x.sch ELSE sch, IF cls = 0 THEN x.cls ELSE cls, IF same THEN Append(x.rel, key) ELSE <<key>>)
        old == At(S, n, key, inst)
        kids == Append(Sub(x.kids, LAMBDA y : y \notin old), new)
    IN [S EXCEPT !.nodes = Append([@ EXCEPT ![n].kids = kids, ![n].mixed = @ \/ old # {}], k), !.open = Append(@, new)]

\* the innermost subresult is left; it goes if it is discarded
Leave(S) ==
    LET n == Top(S)
        p == S.nodes[n].p
        o == SubSeq(S.open, 1, Len(S.open) - 1)
    IN IF S.nodes[n].disc THEN [S EXCEPT !.nodes[p].kids = Sub(@, LAMBDA y : y # n), !.open = o] ELSE [S EXCEPT !.open = o]
RECURSIVE LeaveN(_, _)
LeaveN(S, k) == IF k = 0 THEN S ELSE LeaveN(Leave(S), k - 1)

Annotate(S, n, v) == [S EXCEPT !.nodes[n].ann = v]
FailN(S, n, v) == [S EXCEPT !.nodes[n].valid = FALSE, !.nodes[n].err = v]
Pass(S, n) == [S EXCEPT !.nodes[n].valid = TRUE, !.nodes[n].err = 0]
NoAssert(S, n) == [S EXCEPT !.nodes[n].assert = FALSE]
Discard(S, n) == [S EXCEPT !.nodes[n].disc = TRUE]
Drop(S, n) == [S EXCEPT !.nodes[n].drop = TRUE]
Refer(S, n, s) == [S EXCEPT !.nodes[n].ref = s]
SetGlobal(S, k, v) == [S EXCEPT !.globals = (k :> v) @@ @]

Passed(x) == x.valid \/ ~x.assert

\* the path of evaluation
RECURSIVE PathOf(_, _)
PathOf(S, n) == LET x == S.nodes[n] IN IF x.p = 0 THEN x.key ELSE Append(PathOf(S, x.p), x.key)

\* annotations (errors) of the nodes from n down through valid (invalid) ones that count;
\* inst 0 and key "" filter nothing
RECURSIVE Flat(_, _)
Flat(F(_), q) == IF q = <<>> THEN <<>> ELSE F(q[1]) \o Flat(F, Tail(q))
Wanted(S, n, inst, key) ==
    LET x == S.nodes[n] IN (inst = 0 \/ x.inst = inst) /\ (key = "" \/ (x.p # 0 /\ x.key = key) \/ (x.p = 0 /\ x.key # <<>> /\ x.key[Len(x.key)] = key))
RECURSIVE Annotations(_, _, _, _)
Annotations(S, n, inst, key) ==
    LET x == S.nodes[n]
    IN IF ~x.valid \/ x.disc \/ x.drop THEN <<>>
       ELSE (IF x.ann # 0 /\ Wanted(S, n, inst, key) THEN <<x.ann>> ELSE <<>>)
            \o Flat(LAMBDA k : Annotations(S, k, inst, key), x.kids)
RECURSIVE Errors(_, _, _, _)
Errors(S, n, inst, key) ==
    LET x == S.nodes[n]
    IN IF x.valid \/ x.disc THEN <<>>
       ELSE (IF x.err # 0 /\ Wanted(S, n, inst, key) THEN <<x.err>> ELSE <<>>)
            \o Flat(LAMBDA k : Errors(S, k, inst, key), x.kids)

\* the node for a key and an instance beside n; 0 if there is none
Sibling(S, n, inst, key) ==
    IF S.nodes[n].p = 0 THEN 0
    ELSE LET c == At(S, S.nodes[n].p, key, inst) IN IF c = {} THEN 0 ELSE CHOOSE k \in c : TRUE

\* the nodes of the tree
RECURSIVE Below(_, _)
Below(S, n) == <<n>> \o Flat(LAMBDA k : Below(S, k), S.nodes[n].kids)
InTree(S) == LET b == Below(S, 1) IN {b[i] : i \in 1..Len(b)}
\* are the orders of the nodes below n not settled?
Mixed(S, n) == LET b == Below(S, n) IN \E i \in 1..Len(b) : S.nodes[b[i]].mixed

Apply(S, o) ==
    CASE o.op = "enter"    -> Enter(S, o.key, o.inst, o.sch, o.cls)
      [] o.op = "leave"    -> Leave(S)
      [] o.op = "raise"    -> LeaveN(S, o.k)
      [] o.op = "annotate" -> Annotate(S, o.n, o.v)
      [] o.op = "fail"     -> FailN(S, o.n, o.v)
      [] o.op = "pass"     -> Pass(S, o.n)
      [] o.op = "noassert" -> NoAssert(S, o.n)
      [] o.op = "discard"  -> Discard(S, o.n)
      [] o.op = "drop"     -> Drop(S, o.n)
      [] o.op = "refer"    -> Refer(S, o.n, o.s)
      [] o.op = "global"   -> SetGlobal(S, o.k, o.v)
      [] OTHER             -> S
=============================================================================
