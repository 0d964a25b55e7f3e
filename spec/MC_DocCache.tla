------------------------------ MODULE MC_DocCache ------------------------------
(* The design of jschon's caches: every node stores its key and may cache its *)
(* path and value.  Reads fill caches (a path or value read fills those of    *)
(* the nodes it computes); changes re-key and invalidate exactly what         *)
(* JSON.__setitem__/__delitem__/insert invalidate.  Invariant: whatever is    *)
(* cached is what a fresh document would report.                              *)
EXTENDS DocTree, TLC

CONSTANTS MaxOps, MaxSize

VARIABLES tree,     \* identified nodes
          key,      \* id -> key stored in the node
          pc,       \* id -> cached path: <<>> or <<path>>
          vc,       \* id -> cached value: <<>> or <<value>>
          n, next
vars == <<tree, key, pc, vc, n, next>>

IdSet(t) == LET s == Ids(t) IN {s[i] : i \in 1..Len(s)}
N1 == NatNum(1)

RECURSIVE NumberNew(_, _)
NumberNew(nd, k) ==
    LET me == IF nd.id <= 0 THEN k ELSE nd.id
        nx0 == IF nd.id <= 0 THEN k + 1 ELSE k
        RECURSIVE G(_, _, _)
        G(i, nx, acc) == IF i > Len(nd.ch) THEN <<acc, nx>>
                         ELSE LET x == NumberNew(nd.ch[i], nx) IN G(i + 1, x[2], Append(acc, x[1]))
        r == G(1, nx0, <<>>)
    IN <<[nd EXCEPT !.id = me, !.ch = r[1]], r[2]>>

RECURSIVE KeysOf(_)
\* the keys a newly built subtree stores in its nodes (below its root)
KeysOf(nd) ==
    UNION {{<<nd.ch[i].id, <<IndexToken(i - 1)>>>>} \cup KeysOf(nd.ch[i]) : i \in 1..Len(nd.ch)}

Start == NumberNew(Fresh(Arr(<<Arr(<<N1>>), N1>>)), 1)[1]
FnOf(pairs) == [i \in {x[1] : x \in pairs} |-> (CHOOSE x \in pairs : x[1] = i)[2]]

Init == /\ tree = Start
        /\ key = FnOf({<<1, <<>>>>} \cup KeysOf(Start))
        /\ pc = [i \in IdSet(Start) |-> <<>>]
        /\ vc = [i \in IdSet(Start) |-> <<>>]
        /\ n = 0 /\ next = 10

PathOf(i) == Where(tree, i)[2]
\* the path a node computes from the keys stored along its parents
StoredPath(i) ==
    LET p == PathOf(i)
        anc(k) == NodeAt(tree, SubSeq(p, 1, k))[2].id
    IN [k \in 1..Len(p) |-> key[anc(k)][1]]

ReadPath(i) == /\ pc' = [pc EXCEPT ![i] = IF @ # <<>> THEN @ ELSE <<StoredPath(i)>>]
               /\ UNCHANGED <<tree, key, vc, n, next>>

\* a value read uses cached values of the children, and fills the caches below
RECURSIVE CachedValue(_, _), Fill(_, _)
CachedValue(nd, c) ==
    IF c[nd.id] # <<>> THEN c[nd.id][1]
    ELSE IF nd.t = "a" THEN Arr([k \in 1..Len(nd.ch) |-> CachedValue(nd.ch[k], c)])
    ELSE nd.d
Fill(nd, c) ==
    IF c[nd.id] # <<>> THEN {}
    ELSE {<<nd.id, <<CachedValue(nd, c)>>>>} \cup UNION {Fill(nd.ch[k], c) : k \in 1..Len(nd.ch)}
ReadValue(i) ==
    LET f == Fill(NodeAt(tree, PathOf(i))[2], vc)
    IN /\ vc' = [j \in DOMAIN vc |-> IF \E x \in f : x[1] = j THEN (CHOOSE x \in f : x[1] = j)[2] ELSE vc[j]]
       /\ UNCHANGED <<tree, key, pc, n, next>>

Below(nd) == IdSet(nd)
Ancestors(p) == {NodeAt(tree, SubSeq(p, 1, k))[2].id : k \in 0..Len(p)}   \* including the node itself

\* a change of the array node at location p: new node nd, items at 1-based index >= from are re-keyed
Mutate(p, nd, from) ==
    LET num == NumberNew(nd, next)
        nn == num[1]
        fresh == {i \in IdSet(nn) : i >= next}
        t2 == SetNode(tree, p, nn)
        rekey == {<<nn.ch[k].id, <<IndexToken(k - 1)>>>> : k \in {k \in 1..Len(nn.ch) : k >= from \/ nn.ch[k].id \in fresh}}
        inner == UNION {KeysOf(nn.ch[k]) : k \in {k \in 1..Len(nn.ch) : nn.ch[k].id \in fresh}}
        nk == FnOf(rekey \cup inner)
        stalep == UNION {Below(nn.ch[k]) : k \in {k \in 1..Len(nn.ch) : k >= from}}
        live == IdSet(t2)
    IN /\ tree' = t2
       /\ key' = [i \in live |-> IF i \in DOMAIN nk THEN nk[i] ELSE key[i]]
       /\ pc' = [i \in live |-> IF i \in fresh \/ i \in stalep THEN <<>> ELSE pc[i]]
       /\ vc' = [i \in live |-> IF i \in fresh \/ i \in Ancestors(p) THEN <<>> ELSE vc[i]]
       /\ n' = n + 1 /\ next' = num[2]

Arrays == {p \in Locations(Value(tree)) : NodeAt(tree, p)[2].t = "a"}
Change1 ==
    \E p \in Arrays :
        LET nd == NodeAt(tree, p)[2]
        IN \/ \E i \in 0..(Len(nd.ch) - 1) : \E v \in {N1, Arr(<<N1>>)} : Mutate(p, SetItem(nd, i, v)[2], Len(nd.ch) + 1)
           \/ \E i \in 0..(Len(nd.ch) - 1) : Mutate(p, DelItem(nd, i)[2], i + 1)
           \/ Len(nd.ch) < MaxSize /\ \E i \in 0..Len(nd.ch) : \E v \in {N1, Arr(<<N1>>)} : Mutate(p, InsItem(nd, i, v)[2], i + 2)

Next == \/ \E i \in IdSet(tree) : ReadPath(i) \/ ReadValue(i)
        \/ n < MaxOps /\ Change1

\* identities are only names: forget their exact numbers
RECURSIVE View1(_)
View1(nd) == <<nd.t, pc[nd.id], vc[nd.id], key[nd.id], [k \in 1..Len(nd.ch) |-> View1(nd.ch[k])]>>
View == <<View1(tree), n>>

KeysFresh == \A i \in IdSet(tree) : key[i] = (IF PathOf(i) = <<>> THEN <<>> ELSE <<Last(PathOf(i))>>)
PathsFresh == \A i \in IdSet(tree) : pc[i] # <<>> => pc[i] = <<PathOf(i)>>
ValuesFresh == \A i \in IdSet(tree) : vc[i] # <<>> => vc[i] = <<Value(NodeAt(tree, PathOf(i))[2])>>
=============================================================================
