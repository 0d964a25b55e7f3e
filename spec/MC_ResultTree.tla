------------------------------ MODULE MC_ResultTree ------------------------------
(* All short programs of a keyword that reports to a result tree, with the laws of   *)
(* what can be seen of it; every program is printed with the whole view, for replay.  *)
EXTENDS ResultTree, Json, SequencesExt

CONSTANTS MaxOps, Depth, Keys, Rich
K1 == {"a"}
K2 == {"a", "b"}
VARIABLES log, S

Inner(st) == Len(st.open) > 1
Acts(st, n) ==
    {[op |-> "annotate", n |-> n, v |-> n], [op |-> "fail", n |-> n, v |-> n], [op |-> "pass", n |-> n]}
    \cup (IF Rich THEN {[op |-> "fail", n |-> n, v |-> 0], [op |-> "noassert", n |-> n], [op |-> "drop", n |-> n], [op |-> "refer", n |-> n, s |-> 2]} ELSE {})
Ops(st) ==
    (IF Len(st.open) < Depth THEN [op : {"enter"}, key : Keys, inst : {1, 2}, sch : {0, 2}, cls : IF Rich THEN {0, 2} ELSE {0}] ELSE {})
    \cup (IF Inner(st) THEN {[op |-> "leave"]} ELSE {})
    \cup (IF Inner(st) THEN {[op |-> "discard", n |-> Top(st)]} ELSE {})
    \cup (IF Len(st.open) > 2 THEN {[op |-> "raise", k |-> 2]} ELSE {})
    \cup UNION {Acts(st, n) : n \in InTree(st)}

Init == log = <<>> /\ S = Root(<<>>, 1, 1, 1, <<>>)
\* no step that changes nothing, but for those that enter and leave
Next == /\ Len(log) < MaxOps
        /\ \E o \in Ops(S) : S' = Apply(S, o) /\ S' # S /\ log' = Append(log, o)

Insts == {1, 2}
\* laws
\* the nodes form a tree, with one for a key and an instance, and the open ones are a path in it
Tree == /\ \A n \in InTree(S) : \A i, j \in 1..Len(S.nodes[n].kids) :
             LET k == S.nodes[n].kids[i] m == S.nodes[n].kids[j]
             IN S.nodes[k].p = n /\ (i # j => <<S.nodes[k].key, S.nodes[k].inst>> # <<S.nodes[m].key, S.nodes[m].inst>>)
        /\ \A i \in 2..Len(S.open) : S.nodes[S.open[i]].p = S.open[i - 1] /\ S.open[i] \in InTree(S)
\* discarded nodes are gone as soon as they are left
Gone == \A n \in InTree(S) : S.nodes[n].disc => \E i \in 1..Len(S.open) : S.open[i] = n
\* annotations come from valid nodes only, errors from invalid ones; never both
Apart == \A n \in InTree(S) : Annotations(S, n, 0, "") = <<>> \/ Errors(S, n, 0, "") = <<>>
\* the filters split what there is
Rng(q) == {q[i] : i \in 1..Len(q)}
Split == \A n \in InTree(S) :
           /\ Len(Annotations(S, n, 0, "")) = Len(Annotations(S, n, 1, "")) + Len(Annotations(S, n, 2, ""))
           /\ Len(Errors(S, n, 0, "")) = Len(Errors(S, n, 1, "")) + Len(Errors(S, n, 2, ""))
           /\ \A k \in Keys, i \in Insts : Rng(Annotations(S, n, i, k)) \subseteq Rng(Annotations(S, n, i, "")) \cap Rng(Annotations(S, n, 0, k))
\* what is collected at a node is among what is collected above it, or the node above does not count
Upward == \A n \in InTree(S) : LET p == S.nodes[n].p IN p # 0 =>
            \/ Rng(Annotations(S, n, 0, "")) \subseteq Rng(Annotations(S, p, 0, ""))
            \/ ~S.nodes[p].valid \/ S.nodes[p].disc \/ S.nodes[p].drop
\* a sibling's sibling is the node itself
Mutual == \A n \in InTree(S), k \in Keys, i \in Insts :
            LET m == Sibling(S, n, i, k) IN m # 0 => Sibling(S, m, S.nodes[n].inst, S.nodes[n].key) = n
\* passing again takes a failure back
Back == \A n \in InTree(S) : S.nodes[n].valid /\ S.nodes[n].err = 0 => Pass(FailN(S, n, 1), n) = S

View == LET ns == Below(S, 1)
        IN [i \in 1..Len(ns) |->
             LET n == ns[i] x == S.nodes[n]
             IN [n |-> n, valid |-> x.valid, passed |-> Passed(x), drop |-> x.drop, ann |-> x.ann, err |-> x.err, p |-> x.p, key |-> x.key, inst |-> x.inst,
                 sch |-> x.sch, cls |-> x.cls, rel |-> x.rel, ref |-> x.ref, path |-> PathOf(S, n), kids |-> x.kids, mixed |-> Mixed(S, n),
                 anns |-> [j \in {"", "a"} |-> <<Annotations(S, n, 0, j), Annotations(S, n, 1, j)>>],
                 errs |-> [j \in {"", "a"} |-> <<Errors(S, n, 0, j), Errors(S, n, 1, j)>>],
                 sib |-> Sibling(S, n, 1, "a")]]
Out == Len(log) = MaxOps => PrintT("VCASE " \o ToJson([log |-> log, view |-> View]))
=============================================================================
