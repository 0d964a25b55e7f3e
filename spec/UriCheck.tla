-------------------------------- MODULE UriCheck --------------------------------
(* Verdicts on recorded uses of URI objects (C11).                            *)
EXTENDS TraceLib, Uri

\* what a URI object showed: str, its components (absent ones as <<-1>>), and its predicates
Comp(c) == IF c = <<-1>> THEN None ELSE c
Seen(o) == <<Comp(o.scheme), Comp(o.authority), IF o.path = <<-1>> THEN <<>> ELSE o.path, Comp(o.query), Comp(o.fragment)>>

VSeen(o, u, clause) ==
    IF IsErr(o) THEN clause \o "-raised"
    ELSE IF Seen(o[2]) # u THEN clause \o "-components"
    ELSE IF o[2].str # Unsplit(u) THEN clause \o "-str"
    ELSE IF o[2].len # Len(Unsplit(u)) THEN clause \o "-len"
    ELSE IF u[2] = None /\ u[3] = <<>> THEN "ok"      \* a scheme alone: not judged (see DESIGN.md)
    ELSE IF o[2].absolute # IsAbsolute(u) THEN clause \o "-is-absolute"
    ELSE Check(o[2].absbase = HasAbsoluteBase(u), clause \o "-has-absolute-base")

VParse(e) == VSeen(e.out, Parse(e.t), "parse")

VResolve(e) ==
    LET b == Parse(e.base)
        r == Parse(e.t)
        rootless == b[2] = None /\ (b[3] = <<>> \/ b[3][1] # 47) /\ r[1] = None /\ r[2] = None /\ r[3] # <<>> /\ r[3][1] # 47
    IN First2(VSeen(e.out, Resolve(b, r), IF rootless THEN "resolve-rootless" ELSE "resolve"),
              Check(e.kept, "resolve-changed-operand"))

\* copy: each component is kept, removed or replaced
VCopy(e) ==
    LET u == Parse(e.t)
        c(i) == IF e.how[i] = <<"keep">> THEN u[i]
                ELSE IF e.how[i] = <<"drop">> THEN IF i = 3 THEN <<>> ELSE None
                ELSE e.how[i][2]
        w == [i \in 1..5 |-> c(i)]
    IN First2(VSeen(e.out, w, "copy"), Check(e.kept, "copy-changed-original"))

VValid(e) ==
    LET u == Parse(e.t)
        bad == \/ e.scheme /\ u[1] = None
               \/ e.normal /\ ~IsNormal(u)
               \/ ~e.frag /\ u[5] # None
               \/ ~e.nonempty /\ u[5] # None /\ u[5] # <<>>
    IN IF bad THEN IF IsOk(e.out) THEN "invalid-accepted" ELSE Check(Raised(e.out, "URIError"), "wrong-exception")
       ELSE Check(IsOk(e.out), "valid-rejected")

\* equality of two: both sides, against the other's text, and hashes
VEq(e) ==
    LET same == e.a = e.b
        equivalent == Normal(Parse(e.a)) = Normal(Parse(e.b))
    IN IF IsErr(e.out) THEN "comparison-raised"
       ELSE LET o == e.out[2]
            IN IF same /\ ~o.eq THEN "same-text-unequal"
               ELSE IF o.eq /\ ~equivalent THEN "different-but-equal"
               ELSE IF o.ne # ~o.eq THEN "ne"
               ELSE IF o.rev # o.eq THEN "asymmetric"
               ELSE IF o.eqtext # o.eq THEN "text-comparison-differs"
               ELSE IF o.none THEN "equal-to-none"
               ELSE Check(o.eq => o.hash, "equal-but-hash-differs")

Verdict(hist, e) ==
    CASE e.op = "parse" -> VParse(e)
      [] e.op = "resolve" -> VResolve(e)
      [] e.op = "copy" -> VCopy(e)
      [] e.op = "validate" -> VValid(e)
      [] e.op = "eq" -> VEq(e)

UInit == FInit
UNext == FNext(Verdict)
=============================================================================
