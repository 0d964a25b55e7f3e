--------------------------------- MODULE Sources ---------------------------------
(* Where a catalog loads JSON resources from.  A catalog holds a registration: *)
(* a function from base texts to sources; the default source is registered     *)
(* under the empty text.  Texts are sequences of code points.                   *)
EXTENDS Uri, TLC

Default == <<>>

\* a base: normalized, absolute, ending in a slash
ValidBase(b) ==
    LET u == Parse(b)
    IN u[1] # None /\ u[5] = None /\ IsNormal(u) /\ u[3] # <<>> /\ u[3][Len(u[3])] = 47

\* what can be loaded
ValidUri(t) == LET u == Parse(t) IN u[1] # None /\ u[5] = None /\ IsNormal(u)

Register(reg, b, s) == (b :> s) @@ reg

Matches(reg, t) == {b \in DOMAIN reg : StartsWith(t, b)}
Best(reg, t) == CHOOSE b \in Matches(reg, t) : \A c \in Matches(reg, t) : Len(c) <= Len(b)

\* what is asked of which source: <<source, remainder>>, or <<>> when nothing can be asked
Ask(reg, t) ==
    IF ~ValidUri(t) \/ Matches(reg, t) = {} THEN <<>>
    ELSE LET b == Best(reg, t) IN <<reg[b], From(t, Len(b) + 1)>>

\* a file name or path under a directory: the operating system takes several slashes for one
RECURSIVE Slashes(_, _)
Slashes(t, acc) ==
    IF t = <<>> THEN acc
    ELSE IF Head(t) = 47 /\ (acc = <<>> \/ acc[Len(acc)] = 47) THEN Slashes(Tail(t), acc)
    ELSE Slashes(Tail(t), Append(acc, Head(t)))
FileName(rest, suffix) == Slashes(rest \o suffix, <<>>)
=============================================================================
