------------------------------- MODULE MC_Catalogs -------------------------------
(* All short histories of two names, with the laws of independent catalogs; every    *)
(* history is printed with everything that can then be observed, for replay.          *)
EXTENDS Catalogs, Json, SequencesExt

CONSTANTS MaxOps, Versions, Slim
AllVersions == {<<>>, <<"2020-12">>, <<"2020-12", "nope">>}
OneVersion == {<<"2020-12">>}
VARIABLES log, S, last

Names == {"p", "q"}
Ix(set) == SetToSeq(set)
Ops(st) ==
    [op : {"create"}, name : Names, vs : Versions]
    \cup [op : {"enable"}, c : DOMAIN st.cats, fs : {<<"vf-a">>}]
    \cup {[op |-> "setvoc", c |-> c, mark |-> c] : c \in {x \in DOMAIN st.cats : st.cats[x].voc = 0}}
    \cup {[op |-> "setsrc", c |-> c, mark |-> c] : c \in {x \in DOMAIN st.cats : st.cats[x].src = 0}}
    \cup [op : {"schema"}, by : {<<"name", n>> : n \in Names} \cup (IF Slim THEN {} ELSE {<<"obj", c>> : c \in DOMAIN st.cats}),
          d : {"2020-12", "own"}, k : {"fmt", "ref", "voc"}, f : {"vf-a"}, u : {"s:u"}]

Init == log = <<>> /\ S = S0 /\ last = Done(0, S0)
ev == Len(log) + 1
Next == /\ ev <= MaxOps
        /\ \E o \in Ops(S) : /\ last' = Apply(S, ev, o) /\ S' = last'.S /\ log' = Append(log, [o |-> o, ok |-> last'.ok])

(* laws *)
\* what goes on in one catalog changes no other, and no other's schemas
Touched(o, st) == IF o.op = "create" THEN {} ELSE IF o.op = "schema" THEN {Which(st, o.by)} ELSE {o.c}
Independent ==
    [][\A c \in DOMAIN S.cats : c \notin Touched(log'[Len(log')].o, S) => S'.cats[c] = S.cats[c]]_<<log, S, last>>
OthersShow ==
    [][\A s \in DOMAIN S.schs : S.schs[s].c \notin Touched(log'[Len(log')].o, S) => Shows(S', s) = Shows(S, s)]_<<log, S, last>>
\* failures leave everything as it was, but for the URI of a schema that cannot be built
NoUris(st) == [st EXCEPT !.cats = [c \in DOMAIN st.cats |-> [st.cats[c] EXCEPT !.us = None]]]
FailKeeps == [][~last'.ok => /\ NoUris(S') = NoUris(S)
                             /\ log'[Len(log')].o.op # "schema" => S' = S]_<<log, S, last>>
\* a name stands for the catalog last created under it
Latest == \A n \in Names :
            LET made == {i \in 1..Len(log) : log[i].o.op = "create" /\ log[i].o.name = n /\ i \in DOMAIN S.cats}
            IN IF made = {} THEN n \notin DOMAIN S.reg ELSE S.reg[n] = CHOOSE i \in made : \A j \in made : j <= i
\* a schema stays in its catalog, whatever its name comes to mean
Stays == [][\A s \in DOMAIN S.schs : s \in DOMAIN S'.schs /\ S'.schs[s] = S.schs[s]]_<<log, S, last>>

View == [names |-> [n \in Names |-> IF n \in DOMAIN S.reg THEN S.reg[n] ELSE 0],
         cats |-> LET cs == Ix(DOMAIN S.cats)
                  IN [i \in 1..Len(cs) |->
                       LET c == cs[i]
                       IN [c |-> c, fm |-> "vf-a" \in S.cats[c].fm, voc |-> S.cats[c].voc, src |-> S.cats[c].src,
                           u |-> IF "s:u" \in DOMAIN S.cats[c].us THEN S.cats[c].us["s:u"] ELSE 0,
                           un |-> Unsaid(S, [op |-> "get", c |-> c, u |-> "s:u"]),
                           ds |-> Ix({d \in {"2019-09", "2020-12", "own"} : HasDialect(S.cats[c], d)})]],
         schs |-> LET ss == Ix(DOMAIN S.schs)
                  IN [i \in 1..Len(ss) |-> [s |-> ss[i], c |-> S.schs[ss[i]].c, shows |-> Ix(Shows(S, ss[i]))]]]
Out == Len(log) = MaxOps => PrintT("VCASE " \o ToJson([log |-> log, view |-> View]))
=============================================================================
