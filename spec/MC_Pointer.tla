------------------------------ MODULE MC_Pointer ------------------------------
(* The laws of the pointer specification, checked by TLC over all texts and   *)
(* key sequences of a small scope.  The state space is the tree of all texts; *)
(* it is also the source of the cases replayed on the real code (see          *)
(* harness/vf/drivers/c05.py).                                                *)
EXTENDS Pointer, TLC, Json, IOUtils

CONSTANTS Alpha, MaxLen, Emit

VARIABLE s     \* a text

Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alpha : s' = Append(s, c)

Keys == IF Parse(s) = Err THEN <<>> ELSE Parse(s)[2]

\* text -> keys -> text is the identity on well-formed texts
ParseText == Parse(s) # Err => Text(Keys) = s
\* the keys of a text: as many as slashes, and escaping is a bijection
Escaping == Unescape(Escape(s)) = s
SingleKey == Parse(Text(<<s>>)) = Ok(<<s>>)
\* well-formedness stated independently, by the RFC 6901 grammar as an automaton
RECURSIVE Run(_, _)
Run(q, i) ==
    IF q = "dead" THEN FALSE
    ELSE IF i > Len(s) THEN q \in {"start", "in"}
    ELSE LET c == s[i]
         IN Run(CASE q = "start" -> IF c = Slash THEN "in" ELSE "dead"
                  [] q = "in"    -> IF c = Tilde THEN "esc" ELSE "in"
                  [] q = "esc"   -> IF c \in {C0, C1} THEN "in" ELSE "dead", i + 1)
Grammar == ValidPtrText(s) <=> Run("start", 1)
\* no key contains an unescaped separator; order laws
TokenCount == Parse(s) # Err => Len(Keys) = Cardinality({i \in 1..Len(s) : s[i] = Slash})
PrefixLaw == \A n \in 0..Len(Keys) : /\ IsPrefixOf(SubSeq(Keys, 1, n), Keys)
                                     /\ (IsProperPrefixOf(SubSeq(Keys, 1, n), Keys) <=> n < Len(Keys))
\* relative pointers: text -> record -> text
RelRound == RelParse(s) # Err => RelText(RelParse(s)[2]) = s
\* Emit: each text with what the specification says about it, for replay
Out == Emit => PrintT("VCASE " \o ToJson([s |-> s, ptr |-> Parse(s), rel |-> RelParse(s) # Err]))
=============================================================================
