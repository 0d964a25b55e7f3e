--------------------------------- MODULE Patch ---------------------------------
(* RFC 6902 JSON Patch on JSON values.  An operation is a record              *)
(*   [op, path, from, value]   (path, from: key sequences)                    *)
(* and applying it to a document yields Ok(document) or Err.                  *)
EXTENDS Pointer

Last(p) == p[Len(p)]
Dash == <<45>>

\* replace the value at an existing location
RECURSIVE SetAt(_, _, _)
SetAt(v, p, x) ==
    IF p = <<>> THEN x
    ELSE LET c == SetAt(Child(v, Head(p))[2], Tail(p), x)
         IN IF IsArr(v) THEN Arr([v[2] EXCEPT ![IndexVal(Head(p)) + 1] = c])
            ELSE SetMember(v, Head(p), c)

PAdd(v, p, x) ==
    IF p = <<>> THEN Ok(x)
    ELSE LET par == Eval(v, ParentOf(p))
             t == Last(p)
         IN IF par = Err THEN Err
            ELSE IF IsObj(par[2]) THEN Ok(SetAt(v, ParentOf(p), SetMember(par[2], t, x)))
            ELSE IF ~IsArr(par[2]) THEN Err
            ELSE IF t = Dash THEN Ok(SetAt(v, ParentOf(p), Arr(Append(par[2][2], x))))
            ELSE IF IsIndexToken(t) /\ IndexVal(t) <= Len(par[2][2])
                 THEN Ok(SetAt(v, ParentOf(p), Arr(InsertAtIx(par[2][2], IndexVal(t) + 1, x))))
            ELSE Err

\* removing the root leaves null
PRemove(v, p) ==
    IF p = <<>> THEN Ok(Null)
    ELSE IF ~Resolves(v, p) THEN Err
    ELSE LET par == Eval(v, ParentOf(p))[2]
         IN Ok(SetAt(v, ParentOf(p),
               IF IsObj(par) THEN DelMember(par, Last(p))
               ELSE Arr(RemoveAtIx(par[2], IndexVal(Last(p)) + 1))))

PReplace(v, p, x) == IF ~Resolves(v, p) THEN Err ELSE Ok(SetAt(v, p, x))

PMove(v, from, p) ==
    IF IsProperPrefixOf(from, p) \/ ~Resolves(v, from) THEN Err
    ELSE PAdd(PRemove(v, from)[2], p, Eval(v, from)[2])

PCopy(v, from, p) == IF ~Resolves(v, from) THEN Err ELSE PAdd(v, p, Eval(v, from)[2])

PTest(v, p, x) == IF Resolves(v, p) /\ JEq(Eval(v, p)[2], x) THEN Ok(v) ELSE Err

Apply(v, o) ==
    CASE o.op = "add" -> PAdd(v, o.path, o.value)
      [] o.op = "remove" -> PRemove(v, o.path)
      [] o.op = "replace" -> PReplace(v, o.path, o.value)
      [] o.op = "move" -> PMove(v, o.from, o.path)
      [] o.op = "copy" -> PCopy(v, o.from, o.path)
      [] o.op = "test" -> PTest(v, o.path, o.value)

RECURSIVE ApplyAll(_, _)
ApplyAll(v, os) ==
    IF os = <<>> THEN Ok(v)
    ELSE LET r == Apply(v, Head(os)) IN IF r = Err THEN Err ELSE ApplyAll(r[2], Tail(os))

\* equality of operations
OpEq(a, b) == a.op = b.op /\ a.path = b.path /\ a.from = b.from /\ JEq(a.value, b.value)
OpsEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : OpEq(a[i], b[i])
=============================================================================
