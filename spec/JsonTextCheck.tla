----------------------------- MODULE JsonTextCheck -----------------------------
(* Verdicts on recorded reading and writing of JSON text (C04).               *)
EXTENDS TraceLib, JsonText

\* the largest double and 2^1024, from the trace header
TooBig(hist, v) == AnyTooLarge(v, hist.max, hist.top)

\* one way of loading a text: out is ["ok", value] or ["err", classes]
VLoad(hist, p, out) ==
    IF p = PErr THEN IF IsOk(out) THEN "invalid-text-accepted" ELSE "ok"
    ELSE IF TooBig(hist, p[2]) THEN Check(IsErr(out), "out-of-range-number-accepted")
    ELSE IF IsErr(out) THEN "valid-text-refused"
    ELSE IF HasDup(p[2]) THEN "ok"
    ELSE Check(Denotes(p[2], out[2]), "wrong-value-loaded")

VRead(hist, e) ==
    LET p == ParseText(e.text)
        f(i) == VLoad(hist, p, e.outs[i])
    IN FirstBadFrom(f, 1, Len(e.outs))

\* a file of these bytes
VBytes(hist, e) ==
    LET u == Utf8(e.bytes)
    IN IF u = PErr THEN Check(IsErr(e.out), "not-utf8-accepted") ELSE VLoad(hist, ParseText(u[2]), e.out)

\* v: the document's content; texts: what the ways of writing produced; backs: what loading each of them again gave
VWrite(hist, e) ==
    LET one(o) == IF IsErr(o) THEN "writing-failed"
                  ELSE LET p == ParseText(o[2])
                       IN IF p = PErr THEN "wrote-invalid-text"
                          ELSE IF HasDup(p[2]) THEN "wrote-duplicate-names"
                          ELSE Check(Denotes(p[2], e.v), "wrote-another-value")
        f(i) == one(e.texts[i])
        back(o) == IF IsErr(o) THEN "not-read-back" ELSE Check(o[2].eq /\ o[2].v = e.v, "read-back-different")
        g(i) == back(e.backs[i])
    IN IF e.nonfinite
       THEN Check(\A i \in 1..Len(e.texts) : IsErr(e.texts[i]), "nonfinite-written")
       ELSE LET a == FirstBadFrom(f, 1, Len(e.texts))
            IN IF a # "ok" THEN a
               ELSE IF e.value # e.v THEN "value-differs"
               ELSE IF ~e.strsame THEN "str-differs-from-dumps"
               ELSE FirstBadFrom(g, 1, Len(e.backs))

Verdict(hist, e) ==
    CASE e.op = "read" -> VRead(hist, e)
      [] e.op = "bytes" -> VBytes(hist, e)
      [] e.op = "write" -> VWrite(hist, e)

Init == FInit
Next == FNext(Verdict)
=============================================================================
