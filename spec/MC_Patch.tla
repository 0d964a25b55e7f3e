-------------------------------- MODULE MC_Patch --------------------------------
(* A document under patch operations: a state machine whose actions are the   *)
(* operations of RFC 6902.  TLC visits every document of a small scope, checks *)
(* the frame laws of every operation there, and (Emit) prints every transition *)
(* for replay on jschon.jsonpatch and on the in-place methods of JSON.        *)
EXTENDS Patch, TLC, Json

CONSTANTS MaxNodes, Toks, Vals, Emit

VARIABLES doc, n
vars == <<doc, n>>

ToksC == {<<48>>, <<49>>, <<97>>, <<45>>}
ToksD == {<<48>>, <<49>>, <<97>>, <<45>>, <<48, 48>>, <<50>>}
ValsC == {Null, Arr(<<NatNum(1)>>)}
Keys == {<<48>>, <<97>>}
Leaves == {NatNum(1), Str(<<97>>), Arr(<<>>), Obj(<<>>, <<>>)}

Ptrs == UNION {[1..m -> Toks] : m \in 0..2}

Containers(v) == {p \in Locations(v) : LET x == Eval(v, p)[2] IN IsArr(x) \/ IsObj(x)}
Init == n = 0 /\ doc \in Leaves
Grow == /\ n < MaxNodes
        /\ n' = n + 1
        /\ \E p \in Containers(doc), k \in Keys, x \in Leaves :
             LET c == Eval(doc, p)[2]
             IN IF IsObj(c) THEN ~HasKey(c, k) /\ doc' = SetAt(doc, p, SetMember(c, k, x))
                ELSE k = <<97>> /\ doc' = SetAt(doc, p, Arr(Append(c[2], x)))

Op(o, p, f, x) == [op |-> o, path |-> p, from |-> f, value |-> x]
Ops == {Op(o, p, <<>>, x) : o \in {"add", "replace", "test"}, p \in Ptrs, x \in Vals}
       \cup {Op("test", p, <<>>, Eval(doc, p)[2]) : p \in {q \in Ptrs : Resolves(doc, q)}}
       \cup {Op("remove", p, <<>>, Null) : p \in Ptrs}
       \cup {Op(o, p, f, Null) : o \in {"move", "copy"}, p \in Ptrs, f \in {q \in Ptrs : Len(q) < 2 \/ Resolves(doc, q)}}

Next == Grow

\* ---- laws
Loc(p) == p   \* for readability
Prefixed(p, q) == IsPrefixOf(p, q)
\* locations not at, below or (in an array) after the target keep their value
Untouched(v, p) ==
    {q \in Locations(v) : /\ ~Prefixed(q, p) /\ ~Prefixed(p, q)
                          /\ ~(Len(q) >= Len(p) /\ ParentOf(p) = SubSeq(q, 1, Len(p) - 1))}
Frame(v, w, p) == \A q \in Untouched(v, p) : Resolves(w, q) /\ Eval(w, q) = Eval(v, q)

Laws ==
    \A p \in Ptrs, x \in Vals :
        LET a == PAdd(doc, p, x)
            rp == PReplace(doc, p, x)
            rm == PRemove(doc, p)
        IN /\ a # Err /\ p # <<>> => /\ Frame(doc, a[2], p)
                                     /\ WF(a[2])
                                     /\ Last(p) # Dash => Eval(a[2], p) = Ok(x)
           /\ (p # <<>> /\ a # Err /\ Last(p) # Dash /\ IsArr(Eval(doc, ParentOf(p))[2]))
                 => PRemove(a[2], p) = Ok(doc)
           /\ (p # <<>> /\ ~Resolves(doc, p) /\ a # Err /\ IsObj(Eval(doc, ParentOf(p))[2]))
                 => PRemove(a[2], p) = Ok(doc)
           /\ rp # Err => Eval(rp[2], p) = Ok(x) /\ PTest(rp[2], p, x) # Err
           /\ (rp = Err <=> ~Resolves(doc, p))
           /\ (rm = Err <=> ~Resolves(doc, p))
           /\ (Resolves(doc, p) /\ p # <<>>) =>
                 LET back == PAdd(rm[2], p, Eval(doc, p)[2])
                 IN back # Err /\ JEq(back[2], doc)
           /\ (PTest(doc, p, x) # Err => PTest(doc, p, x) = Ok(doc))
MoveLaws ==
    \A p, f \in Ptrs :
        LET m == PMove(doc, f, p)
            c == PCopy(doc, f, p)
        IN /\ (f = p /\ Resolves(doc, p)) => m # Err /\ JEq(m[2], doc)
           /\ (m # Err /\ p # <<>> /\ Last(p) # Dash) => Eval(m[2], p) = Eval(doc, f)
           /\ (c # Err /\ p # <<>> /\ Last(p) # Dash) => Eval(c[2], p) = Eval(doc, f)
           /\ (c # Err => Resolves(doc, f))
           /\ m # Err => ~IsProperPrefixOf(f, p)

Show(r) == IF r = Err THEN Err ELSE r
Out == Emit => \A o \in Ops : PrintT("VCASE " \o ToJson([doc |-> doc, o |-> o, out |-> Apply(doc, o)]))
=============================================================================
