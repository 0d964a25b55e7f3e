------------------------------- MODULE FormatCheck -------------------------------
(* Formats: which attributes are enabled in which catalog, which have a          *)
(* validator, and what schemas built under these circumstances assert.           *)
(*   enable    [c, names, out]           catalog c                               *)
(*   register  [name, types, bad]        a validator rejecting the values in bad *)
(*   enabled   [c, name, out]            is_format_enabled                       *)
(*   build     [c, d, out]               document d of the history, in c         *)
(*   eval      [c, at, inst, ip, out]    at: <<position in c, path>>             *)
EXTENDS EvalView

VARIABLES en,       \* catalog -> enabled attributes
          reg,      \* attribute -> [types, bad]
          built     \* catalog -> [docs, fmt, ix]

Cats == 1..4
Known == [n \in {} |-> 0]
NoDocs == [docs |-> <<>>, fmt |-> <<>>, ix |-> <<>>]

XIn(hist, b) ==
    [tab |-> hist.tab, rx |-> hist.rx, fmt |-> b.fmt, fam |-> StdFam, kws |-> StdKws, bymeta |-> StdMeta,
     docs |-> [k \in 1..Len(b.docs) |-> hist.docs[b.docs[k]]], ix |-> b.ix]

\* what a schema built in c now will assert
Snapshot(c) == [f \in en[c] \cap DOMAIN reg |-> reg[f]]

WithDoc(hist, b, d, snap) ==
    LET b1 == [docs |-> Append(b.docs, d), fmt |-> Append(b.fmt, snap), ix |-> <<>>]
    IN [b1 EXCEPT !.ix = Index(XIn(hist, b1))]

Set(s) == {s[j] : j \in 1..Len(s)}

FoInit == /\ FInit
          /\ en = [c \in Cats |-> {}]
          /\ reg = Known
          /\ built = [c \in Cats |-> NoDocs]

FoNext ==
    /\ More
    /\ LET e == Ev
       IN CASE e.op = "enable" ->
                 /\ Say(Check(IsOk(e.out), "enable-raised"))
                 /\ en' = [en EXCEPT ![e.c] = @ \cup Set(e.names)]
                 /\ UNCHANGED <<reg, built>>
            [] e.op = "register" ->
                 /\ Say("ok")
                 /\ reg' = [f \in DOMAIN reg \cup {e.name} |-> IF f = e.name THEN [types |-> e.types, bad |-> e.bad] ELSE reg[f]]
                 /\ UNCHANGED <<en, built>>
            [] e.op = "enabled" ->
                 /\ Say(Check(IsOk(e.out) /\ e.out[2] = (e.name \in en[e.c]), "is-enabled"))
                 /\ UNCHANGED <<en, reg, built>>
            [] e.op = "build" ->
                 /\ Say(Check(IsOk(e.out), "construction-raised"))
                 /\ built' = [built EXCEPT ![e.c] = WithDoc(Hist, @, e.d, Snapshot(e.c))]
                 /\ UNCHANGED <<en, reg>>
            [] e.op = "eval" ->
                 /\ Say(VEval(XIn(Hist, built[e.c]), Hist, e))
                 /\ UNCHANGED <<en, reg, built>>
    /\ l' = l + 1
    /\ UNCHANGED h
=============================================================================
