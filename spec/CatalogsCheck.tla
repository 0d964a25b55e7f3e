------------------------------ MODULE CatalogsCheck ------------------------------
(* Verdicts on histories of catalogs (C27).  event: an operation of Catalogs with    *)
(* out, or [op |-> "show", s, out]: what evaluating a schema showed.                 *)
(* For "schema", nodes are the catalogs of the schemas in it and of its metaschema.  *)
EXTENDS TraceLib, Catalogs

VARIABLES S

VOut(r, e) ==
    IF r.ok THEN IF IsErr(e.out) THEN "raised" ELSE Check(e.out[2] = r.out, "wrong-result")
    ELSE IF IsOk(e.out) THEN "accepted" ELSE Check(r.exc = "any" \/ Raised(e.out, r.exc), "wrong-exception")

V(e) ==
    IF e.op = "show"
    THEN IF IsErr(e.out) THEN "evaluation-raised" ELSE Check(e.out[2] \in Shows(S, e.s), "shows-another-catalog")
    ELSE IF Unsaid(S, e) THEN "ok"
    ELSE LET r == Apply(S, l, e)
             v == VOut(r, e)
         IN IF v # "ok" THEN e.op \o "-" \o v
            ELSE IF e.op = "schema" /\ IsOk(e.out) /\ \E i \in 1..Len(e.nodes) : e.nodes[i] # r.out THEN "schema-parts-in-another-catalog"
            ELSE "ok"

CInit == FInit /\ S = [S0 EXCEPT !.reg = [n \in {} |-> 0]]
CNext == /\ More
         /\ Say(V(Ev))
         /\ S' = IF Ev.op = "show" THEN S ELSE Apply(S, l, Ev).S
         /\ l' = l + 1 /\ UNCHANGED h
=============================================================================
