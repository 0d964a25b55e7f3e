----------------------------- MODULE DocTreeCheck -----------------------------
(* Histories of changes and reads on a real JSON document, stepped through    *)
(* DocTree.  The state is the tree with the node identities seen so far.      *)
(*                                                                            *)
(* event: change record + out (outcome), walk (the document walked over its   *)
(* data without touching caches), reads: value/path/evaluate of some nodes.   *)
EXTENDS TraceLib, DocTree

VARIABLES tree, dead
vars == <<h, l, tree, dead>>

Init == h \in 1..Len(Trace) /\ l = 1 /\ tree = Fresh(Trace[h].doc) /\ dead = FALSE

SizeOf(n) == IF n.t = "s" THEN Len(n.d[2]) ELSE Len(n.ch)

\* the class of a node: that of its document, whatever change made the node
ClassAt(kind, depth) ==
    CASE kind = "plain"  -> "J"
      [] kind = "tagged" -> "Tq"
      [] kind = "items"  -> IF depth = 0 THEN "J" ELSE "Tq"
      [] kind = "level"  -> "L" \o ToString(depth)
RECURSIVE ClassesOk(_, _, _)
ClassesOk(kind, o, depth) ==
    /\ o.cls = ClassAt(kind, depth)
    /\ \A i \in 1..Len(o.ch) : ClassesOk(kind, o.ch[i], depth + 1)

\* a read of the node with identity r.id
ReadOk(t, r) ==
    LET w == Where(t, r.id)
    IN IF w = Err THEN "ok"      \* no longer in the document: nothing is promised
       ELSE LET n == NodeAt(t, w[2])[2]
            IN IF r.type # TypeName(Value(n)) THEN "read-type"
               ELSE IF IsErr(r.path) \/ r.path[2] # w[2] THEN "read-path"
               ELSE IF r.key # (IF w[2] = <<>> THEN <<>> ELSE <<Last(w[2])>>) THEN "read-key"
               ELSE IF IsErr(r.value) \/ ~JEq(r.value[2], Value(n)) THEN "read-value"
               ELSE IF ~r.found THEN "read-evaluate"
               ELSE IF IsErr(r.text) \/ ~JEq(r.text[2], Value(n)) THEN "read-text"
               ELSE IF IsErr(r.rep) \/ ~JEq(r.rep[2], Value(n)) THEN "read-repr"
               ELSE IF n.t \in {"a", "o", "s"} /\ r.size # Ok(SizeOf(n)) THEN "read-size"
               ELSE IF n.t \in {"a", "o", "s"} /\ r.true # Ok(SizeOf(n) > 0) THEN "read-truth"
               ELSE IF n.t = "a" /\ r.items # Ok([i \in 1..Len(n.ch) |-> << <<>>, n.ch[i].id >>]) THEN "read-items"
               ELSE IF n.t = "o" /\ r.items # Ok([i \in 1..Len(n.ch) |-> << n.ks[i], n.ch[i].id >>]) THEN "read-members"
               ELSE "ok"

V(e) ==
    LET x == Step(tree, e)
        want == IF x = Err THEN tree ELSE x[2]
        d == Differ(want, e.walk, 0, <<>>)
        r(i) == ReadOk(Strip(e.walk), e.reads[i])
    IN IF x = Err /\ IsOk(e.out) THEN "invalid-change-accepted"
       ELSE IF x # Err /\ IsErr(e.out) THEN "valid-change-rejected"
       ELSE IF d # "ok" THEN (IF x = Err THEN "rejected-but-changed-" ELSE "tree-") \o d
       ELSE IF ~Distinct(e.walk) THEN "node-at-two-places"
       ELSE IF ~ClassesOk(Trace[h].kind, e.walk, 0) THEN "class"
       ELSE FirstBadFrom(r, 1, Len(e.reads))

Next == /\ More /\ ~dead
        /\ LET v == V(Ev) IN Say(v) /\ dead' = (v # "ok")
        /\ tree' = Strip(Ev.walk)
        /\ l' = l + 1 /\ UNCHANGED h
=============================================================================
