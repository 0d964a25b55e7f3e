----------------------------- MODULE PointerCheck -----------------------------
(* Verdicts on recorded uses of JSONPointer and RelativeJSONPointer.          *)
EXTENDS TraceLib, Pointer

(* Python slice i:j:k of a sequence of length n, as the sequence of 0-based   *)
(* indices; each bound is <<>> (omitted) or <<integer>>.                      *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SliceIx(n, i, j, k) ==
    LET step == IF k = <<>> THEN 1 ELSE k[1]
        lo == IF step > 0 THEN 0 ELSE -1
        hi == IF step > 0 THEN n ELSE n - 1
        adj(x) == IF x < 0 THEN x + n ELSE x
        a == IF i = <<>> THEN (IF step > 0 THEN lo ELSE hi) ELSE Clamp(adj(i[1]), lo, hi)
        b == IF j = <<>> THEN (IF step > 0 THEN hi ELSE lo) ELSE Clamp(adj(j[1]), lo, hi)
        RECURSIVE G(_)
        G(x) == IF (step > 0 /\ x >= b) \/ (step < 0 /\ x <= b) THEN <<>> ELSE <<x>> \o G(x + step)
    IN G(a)

\* what is observed of a pointer: keys, str(), fragment, keys read back from str() and from the fragment
FormOk(keys, o) ==
    IF o.keys # keys THEN "keys"
    ELSE IF o.str # Text(keys) THEN "string-form"
    ELSE IF o.back # keys THEN "string-round-trip"
    ELSE IF ~ValidFragment(o.frag) THEN "fragment-grammar"
    ELSE IF PctDecode(o.frag) # Text(keys) THEN "fragment-form"
    ELSE IF o.fback # keys THEN "fragment-round-trip"
    ELSE "ok"

PartOk(p) == p.kind # "text" \/ ValidPtrText(p.v)
PartKeys(p) == IF p.kind = "text" THEN Parse(p.v)[2] ELSE p.v
RECURSIVE Concat(_)
Concat(ps) == IF ps = <<>> THEN <<>> ELSE PartKeys(Head(ps)) \o Concat(Tail(ps))

VParse(e) ==
    LET p == Parse(e.s)
    IN IF p = Err THEN Check(Raised(e.out, "JSONPointerMalformedError"), "malformed-accepted")
       ELSE IF IsErr(e.out) THEN "well-formed-rejected"
       ELSE FormOk(p[2], e.out[2])

VFrag(e) ==
    LET clean == \A i \in 1..Len(e.s) : e.s[i] = 37 => IsPct(e.s, i)
        t == PctDecode(e.s)
    IN IF ~clean \/ (\E i \in 1..Len(t) : t[i] = -1) THEN "ok"
       ELSE LET p == Parse(t)
            IN IF p = Err THEN Check(Raised(e.out, "JSONPointerMalformedError"), "malformed-fragment-accepted")
               ELSE IF IsErr(e.out) THEN "fragment-rejected"
               ELSE Check(e.out[2] = p[2], "fragment-keys")

VConcat(e) ==
    IF \E i \in 1..Len(e.parts) : ~PartOk(e.parts[i])
    THEN Check(Raised(e.out, "JSONPointerMalformedError"), "malformed-part-accepted")
    ELSE IF IsErr(e.out) THEN "parts-rejected"
    ELSE LET keys == Concat(e.parts)
         IN IF FormOk(keys, e.out[2]) # "ok" THEN "concat-" \o FormOk(keys, e.out[2])
            ELSE First2(Check(e.after = [i \in 1..Len(e.parts) |-> e.parts[i].v], "concat-changed-operand"),
                        Check(e.frozen = keys, "pointer-shares-its-source"))

VDiv(e) ==
    IF IsErr(e.out) THEN "append-rejected"
    ELSE LET keys == e.p \o (IF e.kind = "key" THEN <<e.s>> ELSE e.s)
         IN IF FormOk(keys, e.out[2]) # "ok" THEN "append-" \o FormOk(keys, e.out[2])
            ELSE Check(e.after = e.p, "append-changed-operand")

VSeq(e) ==
    LET n == Len(e.p)
        ix == SliceIx(n, e.i, e.j, e.k)
        at == IF e.at < 0 THEN e.at + n ELSE e.at
        hits == {x \in 1..n : e.p[x] = e.probe}
    IN IF e.len # n THEN "len"
       ELSE IF e.iter # e.p THEN "iter"
       ELSE IF e.rev # [x \in 1..n |-> e.p[n + 1 - x]] THEN "reversed"
       ELSE IF IsErr(e.slice) THEN "slice-error"
       ELSE IF ~e.slice[2].isptr THEN "slice-type"
       ELSE IF e.slice[2].keys # [x \in 1..Len(ix) |-> e.p[ix[x] + 1]] THEN "slice-keys"
       ELSE IF (at \in 0..(n - 1)) # IsOk(e.item) THEN "item-bounds"
       ELSE IF IsOk(e.item) /\ e.item[2] # e.p[at + 1] THEN "item"
       ELSE IF e.has # (hits # {}) THEN "contains"
       ELSE IF e.count # Cardinality(hits) THEN "count"
       ELSE Check(e.after = e.p, "sequence-op-changed-pointer")

VCmp(e) ==
    LET eq == e.p = e.q
    IN IF e.eq # eq THEN "eq"
       ELSE IF e.ne # ~eq THEN "ne"
       ELSE IF eq /\ ~e.hasheq THEN "hash"
       ELSE IF e.le # IsPrefixOf(e.p, e.q) THEN "le"
       ELSE IF e.lt # IsProperPrefixOf(e.p, e.q) THEN "lt"
       ELSE IF e.ge # IsPrefixOf(e.q, e.p) THEN "ge"
       ELSE IF e.gt # IsProperPrefixOf(e.q, e.p) THEN "gt"
       ELSE "ok"

(* ---- evaluation (C06): the outcome is ["ok", value, location, same] where  *)
(* location is the path of the node returned (wrapped) and same tells whether *)
(* the very node/object at that place was returned                            *)
VEval(e) ==
    LET x == Eval(e.doc, e.p)
        one(o, wrapped) ==
            IF x = Err
            THEN IF IsOk(o) THEN "resolved-nothing"
                 ELSE Check(Raised(o, "JSONPointerReferenceError"), "wrong-exception")
            ELSE IF IsErr(o) THEN "not-resolved"
            ELSE IF o[2].value # x[2] THEN "wrong-value"
            ELSE IF ~o[2].same THEN "not-the-node-itself"
            ELSE IF wrapped /\ o[2].path # e.base \o e.p THEN "wrong-location"
            ELSE "ok"
        a == one(e.json, TRUE)
        b == one(e.plain, FALSE)
    IN IF a # "ok" THEN "json-" \o a
       ELSE IF b # "ok" THEN "plain-" \o b
       ELSE IF e.after # e.doc THEN "evaluation-changed-document"
       ELSE Check(e.pafter = e.p, "evaluation-changed-pointer")

(* ---- relative pointers (C07) *)
VRelParse(e) ==
    LET r == RelParse(e.s)
    IN IF r = Err THEN Check(Raised(e.out, "RelativeJSONPointerMalformedError"), "rel-malformed-accepted")
       ELSE IF IsErr(e.out) THEN "rel-well-formed-rejected"
       ELSE IF e.out[2].str # RelText(r[2]) THEN "rel-string-form"
       ELSE IF ~e.out[2].backeq \/ ~e.out[2].backhash THEN "rel-round-trip"
       ELSE "ok"

VRelMake(e) ==
    LET r == [up |-> e.up, over |-> e.over, hash |-> e.hash, ptr |-> e.ptr]
    IN IF IsErr(e.out) THEN "rel-make-rejected"
       ELSE IF e.out[2].str # RelText(r) THEN "rel-make-string-form"
       ELSE Check(e.out[2].backeq /\ e.out[2].backhash, "rel-make-round-trip")

VRelCmp(e) ==
    LET a == RelParse(e.s)
        b == RelParse(e.t)
        eq == a = b
    IN IF e.eq # eq \/ e.ne # ~eq THEN "rel-eq"
       ELSE Check(eq => e.hasheq, "rel-hash")

VRelEval(e) ==
    LET r == RelParse(e.s)[2]
        x == RelEval(e.doc, e.at, r)
        o == e.out
    IN IF x = Err THEN (IF IsOk(o) THEN "rel-resolved-nothing"
                        ELSE Check(Raised(o, "RelativeJSONPointerReferenceError"), "rel-wrong-exception"))
       ELSE IF IsErr(o) THEN "rel-not-resolved"
       ELSE IF o[2].kind # x[1] THEN "rel-wrong-kind"
       ELSE IF o[2].v # x[2] THEN "rel-wrong-result"
       ELSE IF x[1] = "node" /\ ~o[2].same THEN "rel-not-the-node-itself"
       ELSE Check(e.after = e.doc, "rel-changed-document")

Verdict(hist, e) ==
    CASE e.op = "parse" -> VParse(e)
      [] e.op = "frag" -> VFrag(e)
      [] e.op = "concat" -> VConcat(e)
      [] e.op = "div" -> VDiv(e)
      [] e.op = "seq" -> VSeq(e)
      [] e.op = "cmp" -> VCmp(e)
      [] e.op = "eval" -> VEval(e)
      [] e.op = "relparse" -> VRelParse(e)
      [] e.op = "relmake" -> VRelMake(e)
      [] e.op = "relcmp" -> VRelCmp(e)
      [] e.op = "releval" -> VRelEval(e)

Init == FInit
Next == FNext(Verdict)
=============================================================================
