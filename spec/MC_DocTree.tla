------------------------------ MODULE MC_DocTree ------------------------------
(* All short histories of changes to small documents.  Checked: identities    *)
(* survive, positions are coherent, rejected changes are no-ops; every        *)
(* history is printed for replay on the real JSON class, with and without     *)
(* reads before each change.                                                  *)
EXTENDS DocTree, TLC, Json

CONSTANTS Depth, Starts

VARIABLES start, tree, hist
vars == <<start, tree, hist>>

N1 == NatNum(1)
Ka == <<97>>
Kz == <<48>>
StartsQ == {Arr(<<N1, Arr(<<>>)>>), Obj(<<Ka>>, <<Arr(<<N1>>)>>), Arr(<<>>)}
StartsD == StartsQ \cup {Arr(<<Arr(<<N1, Null>>), Obj(<<Kz>>, <<N1>>), N1>>), Obj(<<Ka, Kz>>, <<Obj(<<Ka>>, <<Arr(<<N1>>)>>), Null>>)}
Vals == {Null, Arr(<<N1>>)}

RECURSIVE Number(_, _)
\* give every node an identity, depth first from k
Number(n, k) ==
    LET RECURSIVE G(_, _, _)
        G(i, nx, acc) == IF i > Len(n.ch) THEN <<acc, nx>>
                         ELSE LET x == Number(n.ch[i], nx) IN G(i + 1, x[2], Append(acc, x[1]))
        r == G(1, k + 1, <<>>)
    IN <<[n EXCEPT !.id = k, !.ch = r[1]], r[2]>>

RECURSIVE NumberNew(_, _)
\* identities for the nodes a change created
NumberNew(n, k) ==
    LET me == IF n.id <= 0 THEN k ELSE n.id
        nx0 == IF n.id <= 0 THEN k + 1 ELSE k
        RECURSIVE G(_, _, _)
        G(i, nx, acc) == IF i > Len(n.ch) THEN <<acc, nx>>
                         ELSE LET x == NumberNew(n.ch[i], nx) IN G(i + 1, x[2], Append(acc, x[1]))
        r == G(1, nx0, <<>>)
    IN <<[n EXCEPT !.id = me, !.ch = r[1]], r[2]>>

Containers(t) == {p \in Locations(Value(t)) : NodeAt(t, p)[2].t \in {"a", "o"}}

Changes(t) ==
    UNION {LET n == NodeAt(t, p)[2]
           IN IF n.t = "a"
              THEN {[m |-> mm, at |-> p, i |-> i, v |-> v] : mm \in {"setitem", "insert"}, i \in (-Len(n.ch) - 1)..(Len(n.ch) + 1), v \in Vals}
                   \cup {[m |-> mm, at |-> p, i |-> i] : mm \in {"delitem", "popitem"}, i \in (-Len(n.ch) - 1)..Len(n.ch)}
                   \cup {[m |-> "append", at |-> p, v |-> v] : v \in Vals}
                   \cup {[m |-> "reverse", at |-> p]}
                   \cup {[m |-> "add", at |-> p, p |-> <<k>>, v |-> v] : k \in {Kz, <<49>>, Dash}, v \in Vals}
                   \cup {[m |-> "remove", at |-> p, p |-> <<k>>] : k \in {Kz, <<49>>}}
              ELSE {[m |-> "setmem", at |-> p, key |-> k, v |-> v] : k \in {Ka, Kz}, v \in Vals}
                   \cup {[m |-> mm, at |-> p, key |-> k] : mm \in {"delmem", "popmem"}, k \in {Ka, Kz}}
                   \cup {[m |-> "replace", at |-> p, p |-> <<k>>, v |-> v] : k \in {Ka}, v \in Vals}
           : p \in Containers(t)}
    \cup {[m |-> "replace", at |-> <<>>, p |-> <<>>, v |-> Arr(<<N1, N1>>)], [m |-> "add", at |-> <<>>, p |-> <<Kz, Dash>>, v |-> Null]}

Init == start \in Starts /\ hist = <<>> /\ tree = Number(Fresh(start), 1)[1]
Next == /\ Len(hist) < Depth
        /\ \E c \in Changes(tree) :
             LET r == Step(tree, c)
             IN /\ hist' = Append(hist, [c |-> c, ok |-> r # Err])
                /\ tree' = IF r = Err THEN tree ELSE NumberNew(r[2], 1000 * (Len(hist) + 1))[1]
        /\ UNCHANGED start

Unique == Distinct(tree)
RootStays == tree.id = 1
\* every node is found where its path says
Coherent == LET s == Ids(tree) IN \A k \in 1..Len(s) : Where(tree, s[k]) # Err /\ NodeAt(tree, Where(tree, s[k])[2])[2].id = s[k]
WellFormed == WF(Value(tree))
Out == PrintT("VCASE " \o ToJson([start |-> start, hist |-> hist, end |-> Value(tree)]))
=============================================================================
