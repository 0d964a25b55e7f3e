-------------------------------- MODULE EvalView --------------------------------
(* Comparing recorded evaluations with the specified ones.  hist.judge names the *)
(* aspects to judge: valid, loc, ann.                                            *)
EXTENDS TraceLib, Eval, Dialects

Judge(hist, a) == \E k \in 1..Len(hist.judge) : hist.judge[k] = a

(* ------------------------------- comparing trees ------------------------------- *)
\* the recorded annotation a (a JSON value) against the specified one
SameAnn(a, an) ==
    CASE an[1] = "v" -> JEq(a, an[2])
      [] an[1] = "t" -> a = BoolV(TRUE)
      [] an[1] = "n" -> IsNum(a) /\ NumEq(a, NatNum(an[2]))
      [] an[1] = "i" -> /\ IsArr(a) /\ Len(a[2]) = Len(an[2])
                        /\ \A j \in 1..Len(a[2]) : IsNum(a[2][j])
                        /\ \A j \in 1..Len(a[2]) : NumEq(a[2][j], NatNum(an[2][j]))
      [] an[1] = "s" -> /\ IsArr(a) /\ Len(a[2]) = Len(an[2])
                        /\ \A j \in 1..Len(a[2]) : IsStr(a[2][j])
                        /\ {a[2][j][2] : j \in 1..Len(a[2])} = {an[2][j] : j \in 1..Len(an[2])}

SameLoc(X, u, m) == /\ u[1] = Unsplit(X.ix.base[<<m.d, m.r>>])
                    /\ u[2] = m.p

\* what the recorded node r shows, m being the specified one; ep its evaluation path; live: m is in a passing part
RECURSIVE VNode(_, _, _, _, _, _)
VNode(X, hist, r, m, ep, live) ==
    LET kids(c) == {k \in 1..Len(m.c) : m.c[k].k = c.k /\ m.c[k].i = c.i}
        unmatched == {k \in 1..Len(r.c) : kids(r.c[k]) = {} /\ ~r.c[k].silent}
        missing == {k \in 1..Len(m.c) : ~Silent(m.c[k]) /\ ~\E j \in 1..Len(r.c) : r.c[j].k = m.c[k].k /\ r.c[j].i = m.c[k].i}
        known == LET of(k) == IF kids(r.c[k]) = {} THEN <<>> ELSE <<r.c[k]>> IN Flat(of, Len(r.c))
        below(k) == LET mk == m.c[CHOOSE j \in kids(known[k]) : TRUE]
                    IN VNode(X, hist, known[k], mk, Append(ep, known[k].k), live /\ m.v /\ ~mk.d)
        ann == live /\ m.v /\ Judge(hist, "ann")
    IN IF r.v # m.v /\ Judge(hist, "valid") THEN (IF ep = <<>> THEN "verdict" ELSE "node-validity") \o " " \o ToString(ep) \o ToString(m.i)
       ELSE IF Judge(hist, "loc") /\ r.p # ep THEN "evaluation-path " \o ToString(ep)
       ELSE IF Judge(hist, "loc") /\ r.i # m.i THEN "instance-location " \o ToString(ep)
       ELSE IF Judge(hist, "loc") /\ ~SameLoc(X, r.u, m.u) THEN "absolute-location " \o ToString(ep)
       ELSE IF Judge(hist, "loc") /\ ~r.found THEN "absolute-location-not-found " \o ToString(ep)
       ELSE IF ann /\ m.an = <<>> /\ r.a # <<>> THEN "annotation-unexpected " \o ToString(ep)
       ELSE IF ann /\ m.an # <<>> /\ r.a = <<>> THEN "annotation-missing " \o ToString(ep)
       ELSE IF ann /\ m.an # <<>> /\ ~SameAnn(r.a[1], m.an) THEN "annotation-value " \o ToString(ep)
       ELSE IF unmatched # {} THEN "unexpected-node " \o ToString(ep) \o r.c[CHOOSE k \in unmatched : TRUE].k
       ELSE IF missing # {} THEN "missing-node " \o ToString(ep) \o m.c[CHOOSE k \in missing : TRUE].k
       ELSE FirstBadFrom(below, 1, Len(known))

\* clauses without the place, so that findings can be grouped
VEval(X, hist, e) ==
    IF IsErr(e.out) THEN "evaluation-raised"
    ELSE LET loc == (CHOOSE k \in 1..Len(X.ix.ents) : X.ix.ents[k].loc.d = e.at[1] /\ X.ix.ents[k].loc.p = e.at[2])
             m == Evaluate(X, X.ix.ents[loc].loc, e.inst, e.ip)
         IN VNode(X, hist, e.out[2], m, <<>>, TRUE)

(* ----------------------------- collected annotations ----------------------------- *)
RECURSIVE Gather(_, _, _, _)   \* as Collect, with filters that may be <<>> (any)
Gather(ns, live, ipf, keyf) ==
    LET of(k) == IF ~ns[k].v \/ ns[k].d THEN <<>>
                 ELSE (IF ns[k].an # <<>> /\ (keyf = <<>> \/ keyf[1] = ns[k].k) /\ (ipf = <<>> \/ ipf[1] = ns[k].i) THEN <<ns[k].an>> ELSE <<>>)
                      \o Gather(ns[k].c, live, ipf, keyf)
    IN IF live THEN Flat(of, Len(ns)) ELSE <<>>

\* the same annotations, in any order
RECURSIVE SameBag(_, _)
SameBag(as, ms) ==
    IF Len(as) # Len(ms) THEN FALSE
    ELSE IF as = <<>> THEN TRUE
    ELSE LET S == {j \in 1..Len(ms) : SameAnn(as[1], ms[j])}
         IN S # {} /\ SameBag(Tail(as), LET j == CHOOSE j \in S : TRUE IN RemoveAtIx(ms, j))

VAnn(X, hist, e) ==
    IF IsErr(e.out) THEN "collecting-raised"
    ELSE LET loc == (CHOOSE k \in 1..Len(X.ix.ents) : X.ix.ents[k].loc.d = e.at[1] /\ X.ix.ents[k].loc.p = e.at[2])
             m == Evaluate(X, X.ix.ents[loc].loc, e.inst, e.ip)
             q == e.out[2]
             one(k) == LET ms == Gather(m.c, m.v, q[k].i, q[k].k)
                       IN IF SameBag(q[k].a, ms) THEN "ok"
                          ELSE "collected " \o ToString(q[k].i) \o ToString(q[k].k)
         IN FirstBadFrom(one, 1, Len(q))
=============================================================================
