----------------------------- MODULE ResultTreeCheck -----------------------------
(* Verdicts on histories of a result tree (C28).  A history: root [key, inst, sch,   *)
(* cls, rel] and schs, the place of each schema [base, ptr]; an event is an operation *)
(* of ResultTree or an observation: "node" (all about one), "collect", "sibling",     *)
(* "shared" (a global as one node sees it).                                           *)
EXTENDS TraceLib, ResultTree, SequencesExt

VARIABLE S

Place(s) == Trace[h].schs[s]
Where(x) == IF x.ref # 0 THEN [base |-> Place(x.ref).base, ptr |-> Place(x.ref).ptr]
            ELSE [base |-> Place(x.sch).base, ptr |-> Place(x.sch).ptr \o x.rel]

Bag(q) == {<<q[i], Cardinality({j \in 1..Len(q) : q[j] = q[i]})>> : i \in 1..Len(q)}
SameSeq(q, r, mixed) == IF mixed THEN Len(q) = Len(r) /\ Bag(q) = Bag(r) ELSE q = r

VNode(e) ==
    LET x == S.nodes[e.n]
    IN IF e.valid # x.valid THEN "valid"
       ELSE IF e.passed # Passed(x) THEN "passed"
       ELSE IF e.dropped # x.drop THEN "dropped"
       ELSE IF e.ann # x.ann THEN "annotation"
       ELSE IF e.err # x.err THEN "error"
       ELSE IF e.p # x.p THEN "parent"
       ELSE IF x.p # 0 /\ e.key # x.key THEN "key"
       ELSE IF e.inst # x.inst THEN "instance"
       ELSE IF e.sch # x.sch THEN "schema"
       ELSE IF e.cls # x.cls THEN "class"
       ELSE IF e.path # PathOf(S, e.n) THEN "path"
       ELSE IF e.rel # x.rel THEN "relative-path"
       ELSE IF ~SameSeq(e.kids, x.kids, x.mixed) THEN "children"
       ELSE IF e.base # Where(x).base \/ e.ptr # Where(x).ptr THEN "absolute-uri"
       ELSE "ok"

V(e) ==
    CASE e.op = "node"    -> VNode(e)
      [] e.op = "collect" -> IF ~SameSeq(e.anns, Annotations(S, e.n, e.inst, e.key), Mixed(S, e.n)) THEN "annotations"
                             ELSE Check(SameSeq(e.errs, Errors(S, e.n, e.inst, e.key), Mixed(S, e.n)), "errors")
      [] e.op = "sibling" -> Check(e.found = Sibling(S, e.n, e.inst, e.key), "sibling")
      [] e.op = "shared"  -> Check(e.v = (IF e.k \in DOMAIN S.globals THEN S.globals[e.k] ELSE 0), "globals")
      [] e.op = "done"    -> Check(e.clean, "other-tree-changed")
      [] OTHER            -> Check(IsOk(e.out), e.op \o "-raised")

CInit == FInit /\ S = LET r == Trace[h].root IN Root(r.key, r.inst, r.sch, r.cls, r.rel)
CNext == More /\ Say(V(Ev)) /\ S' = Apply(S, Ev) /\ l' = l + 1 /\ UNCHANGED h
=============================================================================
