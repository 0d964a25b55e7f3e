------------------------------- MODULE MC_Sources -------------------------------
(* All short histories of registrations in two catalogs, over nested,          *)
(* overlapping, sibling and invalid bases; each state prints what every load    *)
(* must ask of which source.                                                    *)
EXTENDS Sources, Json, SequencesExt

CONSTANTS MaxReg, Srcs, Cats
VARIABLES log, reg

T(s) == s   \* readability only
\* "s:/" "s:/a/" "s:/a/b/" "s:/ab/" "S:/" (not normal) "s:/a" (no slash) "/a/" (no scheme) "s:/a/#" (fragment)
Bases == {Default, <<115, 58, 47>>, <<115, 58, 47, 97, 47>>, <<115, 58, 47, 97, 47, 98, 47>>, <<115, 58, 47, 97, 98, 47>>}
Bad == {<<83, 58, 47>>, <<115, 58, 47, 97>>, <<47, 97, 47>>, <<115, 58, 47, 97, 47, 35>>, <<115, 58>>}
\* "s:/a/b/c" "s:/a/b/" "s:/a/x" "s:/a" "s:/abc" "s:/ab/x" "t:/a/x" "s:/a/b" "S:/a/x" "a/x" "s:/a/x#"
Uris == {<<115, 58, 47, 97, 47, 98, 47, 99>>, <<115, 58, 47, 97, 47, 98, 47>>, <<115, 58, 47, 97, 47, 120>>, <<115, 58, 47, 97>>,
         <<115, 58, 47, 97, 98, 99>>, <<115, 58, 47, 97, 98, 47, 120>>, <<116, 58, 47, 97, 47, 120>>, <<115, 58, 47, 97, 47, 98>>,
         <<83, 58, 47, 97, 47, 120>>, <<97, 47, 120>>, <<115, 58, 47, 97, 47, 120, 35>>}

Try(r, b, s) == IF b = Default \/ ValidBase(b) THEN Register(r, b, s) ELSE r

Init == log = <<>> /\ reg = [c \in Cats |-> <<>>]
Next == /\ Len(log) < MaxReg
        /\ \E c \in Cats, b \in Bases \cup Bad, s \in Srcs :
             /\ log' = Append(log, <<c, b, s>>)
             /\ reg' = [reg EXCEPT ![c] = Try(@, b, s)]

(* laws *)
Valid == \A b \in Bases \ {Default} : ValidBase(b)
Invalid == \A b \in Bad : ~ValidBase(b)
\* the same, said by the history of registrations: no later one for the same base, none longer that matches
Mine(c) == {n \in 1..Len(log) : log[n][1] = c /\ log[n][2] \notin Bad}
Said(c, t) ==
    LET ms == {n \in Mine(c) : StartsWith(t, log[n][2])}
    IN IF ~ValidUri(t) \/ ms = {} THEN <<>>
       ELSE LET n == CHOOSE n \in ms : \A m \in ms : Len(log[m][2]) < Len(log[n][2]) \/ (Len(log[m][2]) = Len(log[n][2]) /\ m <= n)
            IN <<log[n][3], From(t, Len(log[n][2]) + 1)>>
Right == \A c \in Cats, t \in Uris : Ask(reg[c], t) = Said(c, t)
\* the remainder completes the base
Whole == \A c \in Cats, t \in Uris : Ask(reg[c], t) # <<>> => Best(reg[c], t) \o Ask(reg[c], t)[2] = t
\* the default source is used only when no base matches
DefaultLast == \A c \in Cats, t \in Uris : Ask(reg[c], t) # <<>> /\ Best(reg[c], t) = Default => \A b \in DOMAIN reg[c] \ {Default} : ~StartsWith(t, b)
Isolated == [][\A c \in Cats : (log' # log /\ Last(log')[1] # c) => reg'[c] = reg[c]]_<<log, reg>>

Loads == LET us == SetToSeq(Uris) cs == SetToSeq(Cats)
         IN [n \in 1..Len(us) |-> [u |-> us[n], ask |-> [m \in 1..Len(cs) |-> <<cs[m], Ask(reg[cs[m]], us[n])>>]]]
Out == PrintT("VCASE " \o ToJson([log |-> [n \in 1..Len(log) |-> [c |-> log[n][1], b |-> log[n][2], s |-> log[n][3], ok |-> log[n][2] \notin Bad]], loads |-> Loads]))
=============================================================================
