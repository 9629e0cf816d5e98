------------------------------- MODULE Commands -------------------------------
(***************************************************************************)
(* Override commands, applied one after the other (module ParseText says    *)
(* how they are read, Config what their config names stand for).            *)
(***************************************************************************)
EXTENDS Config, ParseText

Refused(kind) == [ok |-> FALSE, out |-> <<kind>>]
(* one command, by its text, for the element e *)
Command(s, e, text, root, keep) ==
    LET o == ParseOverride(text)
        at == Split(o.path, Dot)
        loaded == Load(s, [i \in 1..Len(o.v[2]) |-> Chars(o.v[2][i])], root, TRUE, keep, TRUE)
    IN IF ~o.ok THEN Refused("parse")
       ELSE IF o.kind = "config" /\ loaded[1] # "ok" THEN [ok |-> FALSE, out |-> loaded]
       ELSE LET r == IF o.kind # "config" THEN ApplyOverride(e, o)
                     ELSE IF at.ok THEN SetAt(e, at.fields, loaded[2], o.combine) ELSE ErrorR
            IN IF r.ok THEN r ELSE Refused("path")
RECURSIVE Commands(_, _, _, _, _)
Commands(s, e, texts, root, keep) ==
    IF texts = <<>> THEN <<"ok", e>>
    ELSE LET r == Command(s, e, texts[1], root, keep)
         IN IF r.ok THEN Commands(s, r.v, Tail(texts), root, keep) ELSE r.out
CommandStep(s, o) ==
    IF o.op = "apply" THEN { [s |-> s, out |-> Commands(s, Abs(o.e), o.texts, o.root, o.keep)] } ELSE FileStep(s, o)

-----------------------------------------------------------------------------
(* Laws of one command *)
(* an assignment gives the value, or what the configs give, at its path and nothing else anywhere *)
Assigned(s, e, text) ==
    LET o == ParseOverride(text)
        at == Split(o.path, Dot).fields
        r == Command(s, e, text, <<>>, FALSE)
        want == IF o.kind = "value" THEN <<"ok", o.v>>
                ELSE Load(s, [i \in 1..Len(o.v[2]) |-> Chars(o.v[2][i])], <<>>, TRUE, FALSE, TRUE)
    IN r.ok /\ o.kind # "delete" /\ ~o.combine =>
         /\ want[1] = "ok" /\ Select(r.v, at) = Done(want[2])
         /\ r = SetAt(e, at, want[2], FALSE)
(* what was removed is gone, or later items have moved up *)
Removed(s, e, text) ==
    LET o == ParseOverride(text)
        at == Split(o.path, Dot).fields
        r == Command(s, e, text, <<>>, FALSE)
    IN r.ok /\ o.kind = "delete" => Select(e, at).ok /\ r.v # e
(* a command that fails, fails in every list it begins *)
FirstFails(s, e, texts) ==
    \A n \in 1..Len(texts) :
      LET before == Commands(s, e, SubSeq(texts, 1, n - 1), <<>>, FALSE)
          here == Command(s, before[2], texts[n], <<>>, FALSE)
      IN before[1] = "ok" /\ ~here.ok => Commands(s, e, texts, <<>>, FALSE) = here.out
=============================================================================
