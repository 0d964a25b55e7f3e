------------------------------- MODULE SourceCheck -------------------------------
(* Verdicts on histories of registrations and loads in several catalogs (C12). *)
(*   register [c, base (<<-1>> for none), s, out]                                *)
(*   load     [c, uri, out, asked]   asked: [s, rest, reply] for every call of a *)
(*            recording source (reply ["value", v] or ["raise", classes])        *)
(*   get      [c, uri, out, asked]   the same, through get_schema                *)
(* hist.src describes the sources: kind "rec"; "local" with the files under its *)
(* directory and its suffix; "remote" with what the server has and the suffix.  *)
EXTENDS TraceLib, Sources

VARIABLE reg

BaseOk(e) == e.base = <<-1>> \/ ValidBase(e.base)

VRegister(e) ==
    IF BaseOk(e) THEN Check(IsOk(e.out), "valid-base-rejected")
    ELSE IF IsOk(e.out) THEN "invalid-base-accepted" ELSE Check(Raised(e.out, "CatalogError"), "invalid-base-wrong-exception")

Held(src, name) == {k \in 1..Len(src.files) : src.files[k][1] = name}

VLoad(hist, e) ==
    LET a == Ask(reg[e.c], e.uri)
        refused(clause) == IF IsOk(e.out) THEN clause \o "-accepted" ELSE Check(Raised(e.out, "CatalogError"), clause \o "-wrong-exception")
    IN IF a = <<>>
       THEN First2(Check(e.asked = <<>>, "asked-a-source-in-vain"), refused(IF ValidUri(e.uri) THEN "unmatched" ELSE "invalid-uri"))
       ELSE LET src == hist.src[a[1]]
            IN IF src.kind = "rec"
               THEN IF e.asked = <<>> THEN "no-source-asked"
                    ELSE IF Len(e.asked) > 1 THEN "asked-repeatedly"
                    ELSE LET q == e.asked[1]
                         IN IF q.s # a[1] THEN "wrong-source"
                            ELSE IF q.rest # a[2] THEN "wrong-remainder"
                            ELSE IF q.reply[1] = "raise" THEN refused("source-failure")
                            ELSE IF IsErr(e.out) THEN "load-raised"
                            ELSE Check(e.out[2] = q.reply[2], "value-changed")
               ELSE LET name == IF src.kind = "local" THEN FileName(a[2], src.suffix) ELSE a[2] \o src.suffix
                        S == Held(src, name)
                    IN IF e.asked # <<>> THEN "wrong-source"
                       ELSE IF S = {} THEN refused(src.kind \o "-missing")
                       ELSE LET f == src.files[CHOOSE k \in S : TRUE][2]
                            IN IF f[1] # "json" THEN refused(src.kind \o "-failure")
                               ELSE IF IsErr(e.out) THEN src.kind \o "-load-raised"
                               ELSE Check(e.out[2] = f[2], src.kind \o "-wrong-value")

SInit == FInit /\ reg = [c \in 1..3 |-> <<>>]
SNext ==
    /\ More
    /\ IF Ev.op = "register"
       THEN /\ Say(VRegister(Ev))
            /\ reg' = IF BaseOk(Ev) THEN [reg EXCEPT ![Ev.c] = Register(@, IF Ev.base = <<-1>> THEN Default ELSE Ev.base, Ev.s)] ELSE reg
       ELSE /\ Say(VLoad(Hist, Ev))
            /\ reg' = reg
    /\ l' = l + 1
    /\ UNCHANGED h
=============================================================================
