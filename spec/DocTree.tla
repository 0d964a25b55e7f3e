-------------------------------- MODULE DocTree --------------------------------
(* A mutable JSON document as a tree of identified nodes.                     *)
(*   node == [id, t, d, ks, ch]                                               *)
(* id: the identity of the node object (0: not yet known - a node this change *)
(* creates), t: JSON type tag, d: the scalar value, ks: member names, ch: the *)
(* children in order.  The operations are the changes a user can make; each   *)
(* yields Ok(tree) or Err.  Nodes not named by a change keep their identity.  *)
EXTENDS Patch

Leaf(i, v) == [id |-> i, t |-> v[1], d |-> v, ks |-> <<>>, ch |-> <<>>]

\* a tree of new nodes for a value
RECURSIVE Fresh(_)
Fresh(v) ==
    CASE v[1] = "a" -> [id |-> 0, t |-> "a", d |-> Null, ks |-> <<>>, ch |-> [i \in 1..Len(v[2]) |-> Fresh(v[2][i])]]
      [] v[1] = "o" -> [id |-> 0, t |-> "o", d |-> Null, ks |-> v[2], ch |-> [i \in 1..Len(v[3]) |-> Fresh(v[3][i])]]
      [] OTHER -> Leaf(0, v)

RECURSIVE Value(_)
Value(n) ==
    CASE n.t = "a" -> Arr([i \in 1..Len(n.ch) |-> Value(n.ch[i])])
      [] n.t = "o" -> Obj(n.ks, [i \in 1..Len(n.ch) |-> Value(n.ch[i])])
      [] OTHER -> n.d

\* index of the child a token names, 0 if none
ChildIx(n, t) ==
    IF n.t = "o" THEN KeyIx(n.ks, t)
    ELSE IF n.t = "a" /\ IsIndexToken(t) /\ IndexVal(t) < Len(n.ch) THEN IndexVal(t) + 1
    ELSE 0

RECURSIVE NodeAt(_, _)
NodeAt(n, p) ==
    IF p = <<>> THEN Ok(n)
    ELSE LET i == ChildIx(n, Head(p)) IN IF i = 0 THEN Err ELSE NodeAt(n.ch[i], Tail(p))

RECURSIVE SetNode(_, _, _)
SetNode(n, p, m) ==
    IF p = <<>> THEN m
    ELSE LET i == ChildIx(n, Head(p)) IN [n EXCEPT !.ch[i] = SetNode(n.ch[i], Tail(p), m)]

\* ---- container operations (list and dict semantics)
ListIx(n, i) == IF i < 0 THEN i + Len(n.ch) ELSE i                     \* may be out of range
InRange(n, i) == n.t = "a" /\ ListIx(n, i) \in 0..(Len(n.ch) - 1)
ClampIx(n, i) == LET j == ListIx(n, i) IN IF j < 0 THEN 0 ELSE IF j > Len(n.ch) THEN Len(n.ch) ELSE j

SetItem(n, i, v) == IF ~InRange(n, i) THEN Err ELSE Ok([n EXCEPT !.ch[ListIx(n, i) + 1] = Fresh(v)])
DelItem(n, i) == IF ~InRange(n, i) THEN Err ELSE Ok([n EXCEPT !.ch = RemoveAtIx(n.ch, ListIx(n, i) + 1)])
InsItem(n, i, v) == IF n.t # "a" THEN Err ELSE Ok([n EXCEPT !.ch = InsertAtIx(n.ch, ClampIx(n, i) + 1, Fresh(v))])
SetMem(n, k, v) ==
    IF n.t # "o" THEN Err
    ELSE LET i == KeyIx(n.ks, k)
         IN Ok(IF i = 0 THEN [n EXCEPT !.ks = Append(n.ks, k), !.ch = Append(n.ch, Fresh(v))]
               ELSE [n EXCEPT !.ch[i] = Fresh(v)])
DelMem(n, k) ==
    IF n.t # "o" \/ KeyIx(n.ks, k) = 0 THEN Err
    ELSE LET i == KeyIx(n.ks, k) IN Ok([n EXCEPT !.ks = RemoveAtIx(n.ks, i), !.ch = RemoveAtIx(n.ch, i)])
ReInit(n, v) == Ok([Fresh(v) EXCEPT !.id = n.id])

\* reversal may move the nodes or exchange their values: any identities are allowed
RECURSIVE Anon(_)
Anon(n) == [n EXCEPT !.id = -1, !.ch = [i \in 1..Len(n.ch) |-> Anon(n.ch[i])]]
Reverse(n) == IF n.t # "a" THEN Err
              ELSE Ok([n EXCEPT !.ch = [i \in 1..Len(n.ch) |-> Anon(n.ch[Len(n.ch) + 1 - i])]])

RECURSIVE ExtendAll(_, _)
ExtendAll(n, vs) == IF vs = <<>> THEN Ok(n)
                    ELSE LET r == InsItem(n, Len(n.ch), Head(vs))
                         IN IF r = Err THEN Err ELSE ExtendAll(r[2], Tail(vs))
RECURSIVE UpdateAll(_, _, _)
UpdateAll(n, ks, vs) == IF ks = <<>> THEN Ok(n)
                        ELSE LET r == SetMem(n, Head(ks), Head(vs))
                             IN IF r = Err THEN Err ELSE UpdateAll(r[2], Tail(ks), Tail(vs))

\* ---- path operations at a node
ParentIx(n, p) == NodeAt(n, ParentOf(p))
AtPath(n, p, r) == IF r = Err THEN Err ELSE Ok(SetNode(n, ParentOf(p), r[2]))

TAdd(n, p, v) ==
    IF p = <<>> THEN ReInit(n, v)
    ELSE LET q == ParentIx(n, p)
             t == Last(p)
         IN IF q = Err THEN Err
            ELSE IF q[2].t = "o" THEN AtPath(n, p, SetMem(q[2], t, v))
            ELSE IF q[2].t # "a" THEN Err
            ELSE IF t = Dash THEN AtPath(n, p, InsItem(q[2], Len(q[2].ch), v))
            ELSE IF IsIndexToken(t) /\ IndexVal(t) <= Len(q[2].ch) THEN AtPath(n, p, InsItem(q[2], IndexVal(t), v))
            ELSE Err
TRemove(n, p) ==
    IF p = <<>> THEN ReInit(n, Null)
    ELSE IF NodeAt(n, p) = Err THEN Err
    ELSE LET q == ParentIx(n, p)[2]
         IN AtPath(n, p, IF q.t = "o" THEN DelMem(q, Last(p)) ELSE DelItem(q, IndexVal(Last(p))))
TReplace(n, p, v) ==
    IF p = <<>> THEN ReInit(n, v)
    ELSE IF NodeAt(n, p) = Err THEN Err
    ELSE LET q == ParentIx(n, p)[2]
         IN AtPath(n, p, IF q.t = "o" THEN SetMem(q, Last(p), v) ELSE SetItem(q, IndexVal(Last(p)), v))

\* ---- one change: a record [m, at, ...] applied to the node at `at`
Change(n, c) ==
    CASE c.m = "setitem"  -> SetItem(n, c.i, c.v)
      [] c.m = "setmem"   -> SetMem(n, c.key, c.v)
      [] c.m = "delitem"  -> DelItem(n, c.i)
      [] c.m = "delmem"   -> DelMem(n, c.key)
      [] c.m = "insert"   -> InsItem(n, c.i, c.v)
      [] c.m = "append"   -> IF n.t # "a" THEN Err ELSE InsItem(n, Len(n.ch), c.v)
      [] c.m = "extend"   -> IF n.t # "a" THEN Err ELSE ExtendAll(n, c.vs)
      [] c.m = "popitem"  -> DelItem(n, c.i)
      [] c.m = "popmem"   -> DelMem(n, c.key)
      [] c.m = "reverse"  -> Reverse(n)
      [] c.m = "clear"    -> IF n.t # "a" THEN Err ELSE Ok([n EXCEPT !.ch = <<>>])
      [] c.m = "update"   -> UpdateAll(n, c.ks, c.vs)
      [] c.m = "default"  -> IF n.t = "o" /\ KeyIx(n.ks, c.key) # 0 THEN Ok(n) ELSE SetMem(n, c.key, c.v)
      [] c.m = "add"      -> TAdd(n, c.p, c.v)
      [] c.m = "remove"   -> TRemove(n, c.p)
      [] c.m = "replace"  -> TReplace(n, c.p, c.v)
      [] c.m = "reject"   -> Err     \* a change that can never succeed (value not JSON, wrong kind of index)
      [] c.m = "nothing"  -> Ok(n)   \* reads, and changes to nodes no longer in the document

Step(tree, c) ==
    LET n == NodeAt(tree, c.at)
        r == Change(n[2], c)
    IN IF r = Err THEN Err ELSE Ok(SetNode(tree, c.at, r[2]))

\* ---- comparison of the expected tree with what a walk over the document observed
(* observed node: [id, t, d, ks, ch, key, par, ok] - key: the node's own idea *)
(* of its key (<<>> or <<token>>), par: identity of its parent (0: none)      *)
RECURSIVE Differ(_, _, _, _)
Differ(x, o, par, key) ==
    IF o.t # x.t THEN "type"
    ELSE IF x.id > 0 /\ o.id # x.id THEN "node-lost"
    ELSE IF o.par # par THEN "parent"
    ELSE IF o.key # key THEN "key"
    ELSE IF ~(x.t \in {"a", "o"}) THEN (IF JEq(x.d, o.d) THEN "ok" ELSE "scalar")
    ELSE IF Len(x.ch) # Len(o.ch) THEN "size"
    ELSE IF x.t = "a"
    THEN LET bad == {i \in 1..Len(x.ch) : Differ(x.ch[i], o.ch[i], o.id, <<IndexToken(i - 1)>>) # "ok"}
         IN IF bad = {} THEN "ok"
            ELSE LET i == CHOOSE j \in bad : \A k \in bad : j <= k
                 IN Differ(x.ch[i], o.ch[i], o.id, <<IndexToken(i - 1)>>)
    ELSE IF {x.ks[i] : i \in 1..Len(x.ks)} # {o.ks[i] : i \in 1..Len(o.ks)} THEN "members"
    ELSE LET bad == {i \in 1..Len(x.ch) : Differ(x.ch[i], o.ch[KeyIx(o.ks, x.ks[i])], o.id, <<x.ks[i]>>) # "ok"}
         IN IF bad = {} THEN "ok"
            ELSE LET i == CHOOSE j \in bad : \A k \in bad : j <= k
                 IN Differ(x.ch[i], o.ch[KeyIx(o.ks, x.ks[i])], o.id, <<x.ks[i]>>)

RECURSIVE Ids(_), SumCard(_)
Ids(n) == <<n.id>> \o (LET RECURSIVE G(_)
                           G(i) == IF i > Len(n.ch) THEN <<>> ELSE Ids(n.ch[i]) \o G(i + 1)
                       IN G(1))
SumCard(n) == Len(Ids(n))
Distinct(n) == LET s == Ids(n) IN Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)

\* the tree with the identities observed
RECURSIVE Strip(_)
Strip(o) == [id |-> o.id, t |-> o.t, d |-> o.d, ks |-> o.ks, ch |-> [i \in 1..Len(o.ch) |-> Strip(o.ch[i])]]

\* the location of the node with identity i
RECURSIVE Where(_, _)
Where(n, i) ==
    IF n.id = i THEN Ok(<<>>)
    ELSE LET hit == {k \in 1..Len(n.ch) : Where(n.ch[k], i) # Err}
         IN IF hit = {} THEN Err
            ELSE LET k == CHOOSE j \in hit : TRUE
                 IN Ok(<<(IF n.t = "o" THEN n.ks[k] ELSE IndexToken(k - 1))>> \o Where(n.ch[k], i)[2])
=============================================================================
