------------------------------- MODULE PurityCheck -------------------------------
(* Evaluation as a function.  The state remembers every outcome and snapshot of  *)
(* the history; what comes later must agree with it.                             *)
(*   eval [s, obj, inst, ip, out]  instance inst, standing at path ip of its     *)
(*        document, evaluated by object obj, which is a schema with content s    *)
(*        (s: the same for schemas that differ in the order of members only)     *)
(*   snap [what, val]              a look at something that must not change      *)
EXTENDS TraceLib, JM

VARIABLES seen, snaps

Drop(p, n) == SubSeq(p, n + 1, Len(p))
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* annotations agree: lists of names in any order
Names(v) == IsArr(v) /\ \A j \in 1..Len(v[2]) : IsStr(v[2][j])
SameAnn(a, b) ==
    IF Names(a) /\ Names(b) THEN Len(a[2]) = Len(b[2]) /\ {a[2][j] : j \in 1..Len(a[2])} = {b[2][j] : j \in 1..Len(b[2])}
    ELSE JEq(a, b)

\* the same tree, but for the order of children, error texts and where the instance stands (na, nb: lengths of its paths)
RECURSIVE Same(_, _, _, _)
Same(x, na, y, nb) ==
    LET match(k) == {j \in 1..Len(y.c) : y.c[j].k = x.c[k].k /\ Drop(y.c[j].i, nb) = Drop(x.c[k].i, na)}
        lone == {k \in 1..Len(x.c) : match(k) = {}}
        below(k) == Same(x.c[k], na, y.c[CHOOSE j \in match(k) : TRUE], nb)
    IN IF x.v # y.v THEN "validity"
       ELSE IF x.p # y.p \/ x.u # y.u \/ Drop(x.i, na) # Drop(y.i, nb) THEN "location"
       ELSE IF Len(x.a) # Len(y.a) \/ (x.a # <<>> /\ ~SameAnn(x.a[1], y.a[1])) THEN "annotation"
       ELSE IF x.e # y.e THEN "error"
       ELSE IF lone # {} \/ Len(x.c) # Len(y.c) THEN "nodes"
       ELSE FirstBadFrom(below, 1, Len(x.c))

\* e against an earlier evaluation o
Agree(e, o) ==
    IF IsErr(e.out) \/ IsErr(o.out) THEN Check(e.out = o.out, "raised")
    ELSE IF e.obj = o.obj /\ e.inst = o.inst /\ e.ip = o.ip
         THEN Check(e.out = o.out, "not-repeatable")
    ELSE LET w == Same(e.out[2], Len(e.ip), o.out[2], Len(o.ip))
         IN IF w = "ok" THEN "ok"
            ELSE IF e.ip # o.ip THEN "depends-on-place-" \o w
            ELSE IF e.obj # o.obj THEN "depends-on-schema-object-" \o w
            ELSE "depends-on-instance-order-" \o w

VEval(e) ==
    IF IsErr(e.out) THEN "evaluation-raised"
    ELSE IF ~IsPrefix(e.ip, e.out[2].i) THEN "location"
    ELSE LET rel == {k \in 1..Len(seen) : seen[k].s = e.s /\ JEq(seen[k].inst, e.inst)}
             bad == {k \in rel : Agree(e, seen[k]) # "ok"}
         IN IF bad = {} THEN "ok" ELSE Agree(e, seen[CHOOSE k \in bad : \A m \in bad : k <= m])

VSnap(e) ==
    LET old == {k \in 1..Len(snaps) : snaps[k].what = e.what}
    IN Check(\A k \in old : snaps[k].val = e.val, "changed-" \o e.kind)

PInit == FInit /\ seen = <<>> /\ snaps = <<>>
PNext ==
    /\ More
    /\ IF Ev.op = "eval"
       THEN /\ Say(VEval(Ev))
            /\ seen' = Append(seen, [s |-> Ev.s, obj |-> Ev.obj, inst |-> Ev.inst, ip |-> Ev.ip, out |-> Ev.out])
            /\ snaps' = snaps
       ELSE /\ Say(VSnap(Ev))
            /\ snaps' = IF \E k \in 1..Len(snaps) : snaps[k].what = Ev.what THEN snaps ELSE Append(snaps, [what |-> Ev.what, val |-> Ev.val])
            /\ seen' = seen
    /\ l' = l + 1
    /\ UNCHANGED h
=============================================================================
