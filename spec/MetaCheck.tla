-------------------------------- MODULE MetaCheck --------------------------------
(* Validating schemas against the standard metaschemas: hist.docs are the        *)
(* documents of one metaschema, its root first.                                  *)
(*   load                                 index the metaschema                   *)
(*   verdict [inst, out]                  validate() of a schema with content    *)
(*                                        inst: true or false                    *)
(*   eval  [at, inst, ip, out]            the whole result tree                  *)
(*   same  [before, after]                what must not change                   *)
(*   build [out]                          a well-formed schema has been built    *)
EXTENDS EvalView

VARIABLE ix

XOf(hist, index) ==
    [tab |-> hist.tab, rx |-> hist.rx, fmt |-> [d \in 1..Len(hist.docs) |-> hist.fmt], fam |-> StdFam, kws |-> StdKws,
     bymeta |-> StdMeta, docs |-> hist.docs, ix |-> index]

VVerdict(X, e) ==
    IF IsErr(e.out) THEN "validate-raised"
    ELSE LET m == Evaluate(X, X.ix.ents[1].loc, e.inst, <<>>)
         IN Check(e.out[2] = m.v, IF m.v THEN "well-formed-rejected" ELSE "malformed-accepted")

MInit == FInit /\ ix = <<>>
MNext ==
    /\ More
    /\ IF Ev.op = "load"
       THEN /\ ix' = Index(XOf(Hist, <<>>))
            /\ Say(Check(Unresolved(ix') = {}, "metaschema-unresolved"))
       ELSE /\ ix' = ix
            /\ Say(CASE Ev.op = "verdict" -> VVerdict(XOf(Hist, ix), Ev)
                     [] Ev.op = "eval" -> VEval(XOf(Hist, ix), Hist, Ev)
                     [] Ev.op = "same" -> Check(Ev.before = Ev.after, "validate-changed-" \o Ev.what)
                     [] Ev.op = "build" -> Check(IsOk(Ev.out), "well-formed-not-built"))
    /\ l' = l + 1
    /\ UNCHANGED h
=============================================================================
