------------------------------- MODULE JsonCheck -------------------------------
(* Verdicts on recorded comparisons of JSON documents (C03).                  *)
EXTENDS TraceLib, JM

VCmp(e) ==
    LET q == JEq(e.a, e.b)
        c(o) == IF IsErr(o) THEN "comparison-raised"
                ELSE IF o[2].eq # q THEN "eq"
                ELSE IF o[2].ne # ~q THEN "ne"
                ELSE "ok"
        f(i) == c(e.forms[i])
    IN IF e.ta # TypeName(e.a) \/ e.tb # TypeName(e.b) THEN "type"
       ELSE FirstBadFrom(f, 1, Len(e.forms))

\* three-way order of two numbers or two strings
Order(a, b) == IF IsNum(a) THEN NumCmp(a, b) ELSE TextCmp(a[2], b[2], 1)
VOrd(e) ==
    LET x == Order(e.a, e.b)
        c(o) == IF IsErr(o) THEN "order-raised"
                ELSE IF o[2].lt # (x < 0) THEN "lt"
                ELSE IF o[2].le # (x <= 0) THEN "le"
                ELSE IF o[2].gt # (x > 0) THEN "gt"
                ELSE IF o[2].ge # (x >= 0) THEN "ge"
                ELSE "ok"
        f(i) == c(e.forms[i])
    IN FirstBadFrom(f, 1, Len(e.forms))

\* membership, index and count of x in array a
VSeek(e) ==
    LET hits == {i \in 1..Len(e.a[2]) : JEq(e.a[2][i], e.x)}
        first == CHOOSE i \in hits : \A j \in hits : i <= j
        c(o) == IF IsErr(o.has) \/ o.has[2] # (hits # {}) THEN "contains"
                ELSE IF IsErr(o.count) \/ o.count[2] # Cardinality(hits) THEN "count"
                ELSE IF hits = {} THEN Check(Raised(o.index, "ValueError"), "index-of-nothing")
                ELSE Check(IsOk(o.index) /\ o.index[2] = first - 1, "index")
        f(i) == c(e.forms[i])
    IN FirstBadFrom(f, 1, Len(e.forms))

Verdict(hist, e) ==
    CASE e.op = "cmp" -> VCmp(e)
      [] e.op = "ord" -> VOrd(e)
      [] e.op = "seek" -> VSeek(e)

Init == FInit
Next == FNext(Verdict)
=============================================================================
