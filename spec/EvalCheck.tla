-------------------------------- MODULE EvalCheck --------------------------------
(* Recorded constructions and evaluations of schemas against the specification. *)
(* The state is the index of the documents built so far in the history.         *)
(*   build  [n, out]              the first n documents have been built         *)
(*   eval   [at, inst, ip, out]   evaluating inst by the schema at <<d, path>>  *)
(*   ann    [at, inst, ip, out]   the annotations collected, by instance path   *)
(*                                and keyword                                   *)
(* hist.judge names the aspects to judge: valid, loc, ann.                      *)
EXTENDS EvalView

VARIABLE ix

XOf(hist, n, index) ==
    [tab |-> hist.tab, rx |-> hist.rx, fmt |-> [d \in 1..n |-> hist.fmt], fam |-> StdFam, kws |-> StdKws, bymeta |-> StdMeta,
     docs |-> SubSeq(hist.docs, 1, n), ix |-> index]

(* ----------------------------------- building ----------------------------------- *)
VBuild(hist, e, nix) ==
    IF Unresolved(nix) # {}
    THEN IF IsOk(e.out) THEN "unresolvable-accepted"
         ELSE Check(Raised(e.out, "JschonError"), "unresolvable-wrong-exception")
    ELSE Check(IsOk(e.out), "construction-raised")

EInit == FInit /\ ix = <<>>
ENext ==
    /\ More
    /\ IF Ev.op = "build"
       THEN LET nix == Index(XOf(Hist, Ev.n, <<>>)) IN Say(VBuild(Hist, Ev, nix)) /\ ix' = nix
       ELSE /\ Say(IF Ev.op = "eval" THEN VEval(XOf(Hist, Ev.n, ix), Hist, Ev) ELSE VAnn(XOf(Hist, Ev.n, ix), Hist, Ev))
            /\ ix' = ix
    /\ l' = l + 1
    /\ UNCHANGED h
=============================================================================
