--------------------------------- MODULE Output ---------------------------------
(* The output formats as views of a result tree.  A node is                     *)
(*   [k   keyword (last token of the evaluation path), "" at the root,          *)
(*    kp  evaluation path, ip instance location, au absolute location (strings),*)
(*    v   valid,  ps passed (validity as its schema sees it),                   *)
(*    a   <<>> or <<annotation>>,   e  <<>> or <<error>>,                       *)
(*    app whether a schema was applied at this node: its children are then the  *)
(*        keywords of that schema, else they are the subschemas of a keyword,   *)
(*    sch whether the node is about a schema (rather than a keyword's value),   *)
(*    c   children]                                                             *)
EXTENDS JM

RECURSIVE FlatO(_, _, _, _), MapO(_, _, _, _)
FlatO(F(_), n, k, acc) == IF n > k THEN acc ELSE FlatO(F, n + 1, k, acc \o F(n))
MapO(F(_), n, k, acc) == IF n > k THEN acc ELSE MapO(F, n + 1, k, Append(acc, F(n)))

\* the k-th child of n belongs to a schema that failed at its instance location: its annotations do not count
Dropped(n, k) == n.app /\ \E j \in 1..Len(n.c) : n.c[j].ip = n.c[k].ip /\ ~n.c[j].ps

\* the k-th child of n matters for the outcome v of n
Relevant(n, k, v) == n.c[k].v = v /\ ~(v /\ Dropped(n, k))

MsgKey(v) == IF v THEN "annotation" ELSE "error"
ListKey(v) == IF v THEN "annotations" ELSE "errors"
Msg(n, v) == IF v THEN n.a ELSE n.e

Keys(n) == <<"instanceLocation", "keywordLocation", "absoluteKeywordLocation">>
Locs(n) == <<Str(n.ip), Str(n.kp), Str(n.au)>>
Unit(n, ks, vs) == Obj(Keys(n) \o ks, Locs(n) \o vs)

Flag(n) == Obj(<<"valid">>, <<BoolV(n.v)>>)

\* filter: <<>> or <<names>> (a set)
RECURSIVE BasicUnits(_, _, _)
BasicUnits(n, v, filter) ==
    LET m == Msg(n, v)
        below(k) == IF Relevant(n, k, v) THEN BasicUnits(n.c[k], v, filter) ELSE <<>>
    IN (IF m # <<>> /\ (filter = <<>> \/ n.k \in filter[1]) THEN <<Unit(n, <<MsgKey(v)>>, m)>> ELSE <<>>)
       \o FlatO(below, 1, Len(n.c), <<>>)

\* what one relevant node shows: a node with one relevant child is replaced by it
RECURSIVE DetailedUnit(_, _)
DetailedUnit(n, v) ==
    LET one(k) == IF Relevant(n, k, v) THEN <<DetailedUnit(n.c[k], v)>> ELSE <<>>
        kids == FlatO(one, 1, Len(n.c), <<>>)
    IN IF kids = <<>> THEN Unit(n, IF Msg(n, v) = <<>> THEN <<>> ELSE <<MsgKey(v)>>, Msg(n, v))
       ELSE IF Len(kids) = 1 THEN kids[1]
       ELSE Unit(n, <<ListKey(v)>>, <<Arr(kids)>>)

Detailed(n) ==
    LET one(k) == IF Relevant(n, k, n.v) THEN <<DetailedUnit(n.c[k], n.v)>> ELSE <<>>
    IN Unit(n, <<"valid", ListKey(n.v)>>, <<BoolV(n.v), Arr(FlatO(one, 1, Len(n.c), <<>>))>>)

RECURSIVE Verbose(_)
Verbose(n) ==
    LET one(k) == Verbose(n.c[k])
        m == Msg(n, n.v)
        kids == MapO(one, 1, Len(n.c), <<>>)
    IN Unit(n, <<"valid">> \o (IF m = <<>> THEN <<>> ELSE <<MsgKey(n.v)>>) \o (IF kids = <<>> THEN <<>> ELSE <<ListKey(n.v)>>),
            <<BoolV(n.v)>> \o m \o (IF kids = <<>> THEN <<>> ELSE <<Arr(kids)>>))

\* the errors that explain why n fails, with instance location ip and keyword k where given (<<>> or one each)
RECURSIVE Errors(_, _, _)
Errors(n, ip, k) ==
    LET below(j) == Errors(n.c[j], ip, k)
    IN IF n.v THEN <<>>
       ELSE (IF n.e # <<>> /\ (ip = <<>> \/ n.ip = ip[1]) /\ (k = <<>> \/ n.k = k[1]) THEN n.e ELSE <<>>)
            \o FlatO(below, 1, Len(n.c), <<>>)

(* hierarchical: one unit per schema node; messages of its keywords in it.  Where several instance locations share the node, a keyword *)
(* shows one of its messages.                                                                                                          *)
RECURSIVE HUnits(_), SameH(_, _)
HUnits(n) ==    \* the nodes that have units, n or the topmost below it
    IF n.sch THEN <<n>>
    ELSE LET one(k) == HUnits(n.c[k]) IN FlatO(one, 1, Len(n.c), <<>>)

HMessages(n) ==     \* keyword -> the set of its messages
    LET ks == {k \in 1..Len(n.c) : Msg(n.c[k], n.v) # <<>> /\ ~(n.v /\ Dropped(n, k))}
    IN [key \in {n.c[k].k : k \in ks} |-> {Msg(n.c[k], n.v)[1] : k \in {j \in ks : n.c[j].k = key}}]

\* the recorded unit o against the node n
SameH(o, n) ==
    LET one(k) == IF Relevant(n, k, n.v) THEN HUnits(n.c[k]) ELSE <<>>
        kids == FlatO(one, 1, Len(n.c), <<>>)
        msgs == HMessages(n)
        want == {"valid", "evaluationPath", "schemaLocation", "instanceLocation"}
                \cup (IF kids = <<>> THEN {} ELSE {"details"}) \cup (IF DOMAIN msgs = {} THEN {} ELSE {ListKey(n.v)})
    IN IF ~IsObj(o) \/ {o[2][j] : j \in 1..Len(o[2])} # want THEN "hierarchical-members"
       ELSE IF Member(o, "valid") # BoolV(n.v) THEN "hierarchical-valid"
       ELSE IF \/ Member(o, "evaluationPath") # Str(n.kp) \/ Member(o, "schemaLocation") # Str(n.au)
               \/ Member(o, "instanceLocation") # Str(n.ip) THEN "hierarchical-location"
       ELSE IF DOMAIN msgs # {}
               /\ LET m == Member(o, ListKey(n.v))
                  IN \/ ~IsObj(m) \/ {m[2][j] : j \in 1..Len(m[2])} # DOMAIN msgs
                     \/ \E j \in 1..Len(m[2]) : \A x \in msgs[m[2][j]] : ~JEq(x, m[3][j])
            THEN "hierarchical-messages"
       ELSE IF kids = <<>> THEN "ok"
       ELSE LET d == Member(o, "details")
            IN IF ~IsArr(d) \/ Len(d[2]) # Len(kids) THEN "hierarchical-details"
               ELSE LET bad == {j \in 1..Len(kids) : SameH(d[2][j], kids[j]) # "ok"}
                    IN IF bad = {} THEN "ok" ELSE SameH(d[2][CHOOSE j \in bad : \A m \in bad : j <= m], kids[CHOOSE j \in bad : \A m \in bad : j <= m])

\* the same JSON values, in any order
RECURSIVE SameBag(_, _)
SameBag(as, ms) ==
    IF Len(as) # Len(ms) THEN FALSE
    ELSE IF as = <<>> THEN TRUE
    ELSE LET S == {j \in 1..Len(ms) : JEq(as[1], ms[j])}
         IN S # {} /\ SameBag(Tail(as), LET j == CHOOSE j \in S : TRUE IN SubSeq(ms, 1, j - 1) \o SubSeq(ms, j + 1, Len(ms)))

SameErrors(o, n, ip, k) == SameBag(o, Errors(n, ip, k))

SameBasic(o, n, filter) ==
    /\ IsObj(o) /\ {o[2][j] : j \in 1..Len(o[2])} = {"valid", ListKey(n.v)}
    /\ Member(o, "valid") = BoolV(n.v)
    /\ IsArr(Member(o, ListKey(n.v)))
    /\ \/ SameBag(Member(o, ListKey(n.v))[2], BasicUnits(n, n.v, filter))
       \* the filter is about annotations: errors may be listed in full
       \/ ~n.v /\ SameBag(Member(o, ListKey(n.v))[2], BasicUnits(n, n.v, <<>>))
=============================================================================
