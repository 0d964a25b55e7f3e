------------------------------- MODULE TraceLib -------------------------------
(* Checking traces recorded from the real code against a specification.  A    *)
(* trace file has one history per line: [ev |-> <<event, ...>>, ...].  Every  *)
(* history is one initial state; each step consumes one event and asks the    *)
(* specification for a verdict on it: "ok" or the name of the violated clause.*)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLES h, l

Hist == Trace[h]
Ev   == Trace[h].ev[l]
More == l <= Len(Trace[h].ev)

Say(v) ==
    /\ IF v = "ok" THEN TRUE
       ELSE PrintT("VFAIL " \o ToString(h) \o " " \o ToString(l) \o " " \o v)
    /\ IF l = Len(Trace[h].ev) THEN PrintT("VEND " \o ToString(h)) ELSE TRUE

\* histories of independent events
FInit == h \in 1..Len(Trace) /\ l = 1
FNext(V(_, _)) ==
    /\ More
    /\ Say(V(Hist, Ev))
    /\ l' = l + 1
    /\ UNCHANGED h

\* the first clause that is not "ok"; F(i) is evaluated lazily
RECURSIVE FirstBadFrom(_, _, _)
FirstBadFrom(F(_), i, n) ==
    IF i > n THEN "ok" ELSE LET v == F(i) IN IF v # "ok" THEN v ELSE FirstBadFrom(F, i + 1, n)

Check(cond, clause) == IF cond THEN "ok" ELSE clause

First2(a, b) == IF a # "ok" THEN a ELSE b

\* does an outcome ["err", classes] report an exception of the given class?
IsErr(o) == o[1] = "err"
IsOk(o)  == o[1] = "ok"
Raised(o, cls) == IsErr(o) /\ \E i \in 1..Len(o[2]) : o[2][i] = cls
=============================================================================
