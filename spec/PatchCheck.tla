------------------------------ MODULE PatchCheck ------------------------------
(* Traces of jschon.jsonpatch (C08, C09) and of JSON.add/remove/replace (C02) *)
(* stepped through the patch specification.  The state is the document the    *)
(* specification has arrived at.                                              *)
EXTENDS TraceLib, Patch

VARIABLES cur, dead
vars == <<h, l, cur, dead>>

Init == h \in 1..Len(Trace) /\ l = 1 /\ cur = Ok(Trace[h].doc) /\ dead = FALSE

Outcome(x, o, cls) ==
    IF x = Err THEN (IF IsOk(o) THEN "error-not-detected" ELSE Check(Raised(o, cls), "wrong-exception"))
    ELSE IF IsErr(o) THEN "valid-operation-rejected"
    ELSE Check(JEq(o[2], x[2]), "wrong-document")

\* C08: event k observes JSONPatch(o1..ok).evaluate(doc), and the module function for ok alone
StepPatch(e) ==
    LET x == IF cur = Err THEN Err ELSE Apply(cur[2], e.o)
        a == Outcome(x, e.out, "JSONPatchError")
        b == IF cur = Err THEN "ok" ELSE Outcome(x, e.fout, "JSONPatchError")
    IN /\ Say(IF a # "ok" THEN a ELSE IF b # "ok" THEN "function-" \o b ELSE "ok")
       /\ cur' = x
       /\ dead' = (a # "ok" \/ b # "ok")

\* C02: the whole document after an in-place operation at node `base`
StepInPlace(e) ==
    LET sub == Eval(cur[2], e.base)[2]
        r == Apply(sub, e.o)
        x == IF r = Err THEN cur ELSE Ok(SetAt(cur[2], e.base, r[2]))
        v == IF r = Err
             THEN IF IsOk(e.out) THEN "error-not-detected" ELSE Check(Raised(e.out, "JSONError"), "wrong-exception")
             ELSE Check(IsOk(e.out), "valid-operation-rejected")
        w == IF v # "ok" THEN v
             ELSE IF ~JEq(e.doc, x[2]) THEN (IF r = Err THEN "rejected-but-changed" ELSE "wrong-document")
             ELSE IF ~e.valuesame THEN "value-argument-changed"
             ELSE IF ~e.copied THEN "value-not-copied"
             ELSE IF ~JEq(e.val, x[2]) THEN "value-differs-from-document"
             ELSE "ok"
    IN /\ Say(w)
       /\ cur' = x
       /\ dead' = (w # "ok")

\* C09: two evaluations with identities of every mutable container involved
Disjoint(a, b) == \A i \in 1..Len(a), j \in 1..Len(b) : a[i] # b[j]
NoDup(a) == \A i, j \in 1..Len(a) : i # j => a[i] # a[j]
SameOutcome(a, b) == a[1] = b[1] /\ (a[1] = "ok" => JEq(a[2], b[2]))
StepIso(e) ==
    LET w == IF ~JEq(e.doc1, cur[2]) THEN "document-changed"
             ELSE IF ~OpsEq(e.ops1, e.ops) THEN "patch-changed"
             ELSE IF ~SameOutcome(e.out1, e.out2) THEN "not-repeatable"
             ELSE IF ~Disjoint(e.rids, e.dids) THEN "result-shares-with-document"
             ELSE IF ~Disjoint(e.rids, e.pids) THEN "result-shares-with-patch"
             ELSE IF ~NoDup(e.rids) THEN "result-shares-within-itself"
             \* after mutating every container of the first result
             ELSE IF ~JEq(e.doc2, cur[2]) THEN "result-change-shows-in-document"
             ELSE IF ~OpsEq(e.ops2, e.ops) THEN "result-change-shows-in-patch"
             ELSE IF ~SameOutcome(e.out1, e.out3) THEN "result-change-shows-in-next-evaluation"
             ELSE IF ~SameOutcome(e.out1, e.out2b) THEN "result-change-shows-in-other-result"
             ELSE "ok"
    IN Say(w) /\ dead' = (w # "ok") /\ cur' = cur

Next == /\ More /\ ~dead
        /\ CASE Ev.k = "patch" -> StepPatch(Ev)
             [] Ev.k = "inplace" -> StepInPlace(Ev)
             [] Ev.k = "iso" -> StepIso(Ev)
        /\ l' = l + 1 /\ UNCHANGED h
=============================================================================
