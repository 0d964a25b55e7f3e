------------------------------ MODULE MC_PtrEval ------------------------------
(* Laws of pointer evaluation and of relative pointers, over all documents of *)
(* a small scope.  A behaviour builds a document from smaller ones.           *)
EXTENDS Pointer, TLC

CONSTANTS MaxNodes, KeySet, TokSet

K0 == <<48>>
Ka == <<97>>

KeysC == {<<48>>, <<49>>, <<97>>, <<>>, <<45>>}
ToksC == {<<48>>, <<49>>, <<97>>, <<>>, <<45>>, <<48, 48>>, <<48, 49>>}

VARIABLES doc, n
vars == <<doc, n>>

\* grow the document: put a leaf, an empty array or an empty object at some place
Leaves == {Null, BoolV(TRUE), Str(<<48>>), Arr(<<>>), Obj(<<>>, <<>>)}

RECURSIVE Put(_, _, _)
\* append x as an item / member at location p of v
Put(v, p, kx) ==
    IF p = <<>>
    THEN IF IsArr(v) THEN Arr(Append(v[2], kx[2])) ELSE SetMember(v, kx[1], kx[2])
    ELSE LET c == Put(Child(v, Head(p))[2], Tail(p), kx)
         IN IF IsArr(v) THEN Arr([v[2] EXCEPT ![IndexVal(Head(p)) + 1] = c])
            ELSE SetMember(v, Head(p), c)

Containers(v) == {p \in Locations(v) : LET x == Eval(v, p)[2] IN IsArr(x) \/ IsObj(x)}

Init == n = 0 /\ doc \in Leaves
Next == /\ n < MaxNodes
        /\ n' = n + 1
        /\ \E p \in Containers(doc), k \in KeySet, x \in Leaves :
             /\ (IsObj(Eval(doc, p)[2]) => ~HasKey(Eval(doc, p)[2], k))
             /\ (IsArr(Eval(doc, p)[2]) => k = CHOOSE z \in KeySet : TRUE)
             /\ doc' = Put(doc, p, <<k, x>>)

Ptrs == UNION {[1..m -> TokSet] : m \in 0..2}

\* a pointer resolves exactly when it is one of the document's locations
ResolveIffLocation == \A p \in Ptrs : Resolves(doc, p) <=> p \in Locations(doc)
\* evaluation is compositional
Compose == \A p \in Locations(doc) : \A q \in Ptrs :
              Eval(doc, p \o q) = Eval(Eval(doc, p)[2], q)
\* locations reached through different texts are different nodes: text is injective on locations
Injective == \A p, q \in Locations(doc) : Text(p) = Text(q) => p = q
\* relative pointers: 0 is the identity, up is the parent, an adjustment and its inverse cancel
RelLaws ==
    \A p \in Locations(doc) :
        LET rel(t) == RelEval(doc, p, RelParse(t)[2])
        IN /\ rel(<<48>>) = <<"node", p>>
           /\ (rel(<<49>>) = Err <=> p = <<>>)
           /\ (p # <<>> => rel(<<49>>) = <<"node", ParentOf(p)>>)
           /\ (rel(<<48, 35>>) = Err <=> p = <<>>)
           /\ LET fwd == rel(<<48, 43, 49>>)
              IN fwd # Err => RelEval(doc, fwd[2], RelParse(<<48, 45, 49>>)[2]) = <<"node", p>>
           /\ \A q \in Locations(doc) : \* from p up to the root and down to q
                RelEval(doc, p, [up |-> IndexToken(Len(p)), over |-> <<>>, hash |-> FALSE, ptr |-> q]) = <<"node", q>>
Wellformed == WF(doc)
=============================================================================
