----------------------------- MODULE PatchListCheck -----------------------------
(* Histories of list operations on a real JSONPatch.                          *)
EXTENDS TraceLib, PatchList

VARIABLES s, dead
Init == h \in 1..Len(Trace) /\ l = 1 /\ s = Trace[h].ops /\ dead = FALSE

Answer(e, a) ==
    CASE e.m \in {"get", "pop"} -> OpEq(a, e.out[2])
      [] e.m \in {"slice", "iter", "reversed"} -> OpsEq(a, e.out[2])
      [] e.m \in {"index", "count", "has", "len", "eq"} -> a = e.out[2]
      [] OTHER -> TRUE

VCall(e) ==
    LET r == Call(s, e, OpEq)
    IN IF r = Err /\ IsOk(e.out) THEN "error-not-detected"
       ELSE IF r = Err /\ e.m # "badop" /\ ~(Raised(e.out, "IndexError") \/ Raised(e.out, "ValueError")) THEN "wrong-exception"
       ELSE IF r # Err /\ IsErr(e.out) THEN "valid-call-rejected"
       ELSE IF r # Err /\ ~Answer(e, r[3]) THEN "wrong-answer-" \o e.m
       ELSE IF ~OpsEq(e.after, IF r = Err THEN s ELSE r[2]) THEN "wrong-list-" \o e.m
       ELSE IF ~e.rebuilt THEN "json-form-differs"
       ELSE "ok"

\* equality of two operations, in every combination of forms
VOpCmp(e) ==
    LET q == OpEq(e.a, e.b)
    IN IF e.eq # q \/ e.qe # q THEN "operation-eq"
       ELSE IF e.ne # ~q THEN "operation-ne"
       ELSE IF e.deq # q THEN "operation-eq-dict"
       ELSE IF ~OpEq(e.a, e.aform) THEN "operation-json-form"
       ELSE Check(e.aback, "operation-round-trip")

Next == /\ More /\ ~dead
        /\ LET v == IF Ev.m = "opcmp" THEN VOpCmp(Ev) ELSE VCall(Ev)
           IN Say(v) /\ dead' = (v # "ok")
        /\ s' = IF Ev.m = "opcmp" THEN s ELSE LET r == Call(s, Ev, OpEq) IN IF r = Err THEN s ELSE r[2]
        /\ l' = l + 1 /\ UNCHANGED h
=============================================================================
