---------------------------- MODULE JudgeUnmarshal ----------------------------
(* Judges recorded calls of unmarshal. *)
EXTENDS Unmarshal, PathText, Judge

Owns == {"alien:ValueError", "alien:TypeError", "alien:KeyError", "alien:ZeroDivisionError", "alien:OSError"}
OutIs(out, r) ==
    IF r.ok THEN /\ out.k = "ok" /\ Norm(out.v) = Norm(r.v)
                 /\ Tag(r.v) = "lg" => out.v = r.v
    ELSE IF "own" \in DOMAIN r THEN out.k \in Owns
    ELSE /\ out.k = (IF r.miss THEN "missing" ELSE "unmarshal")
         /\ Split(out.at, Dot) = [ok |-> TRUE, fields |-> r.at]

Expected(ev) ==
    CASE ev.op = "um" -> UM(ev.t, With(ev.e, ev.kw), <<>>, ev.env)

(* a callable t (a struct of kind "fn") called with an element and values at the call site *)
Called(ev) ==
    LET r == Bind(ev.t[4], ev.e, ev.ca, ev.ck, ev.env)
    IN IF r.ok THEN Ok(Construct("fn", ev.t[3], r.v)) ELSE r
CalledWell(ev) ==
    IF SiteBad(ev.t[4], ev.ca, ev.ck)
    THEN /\ ev.calls = 0
         /\ ev.out.k = "alien:TypeError" \/ (~Called(ev).ok /\ OutIs(ev.out, Called(ev)))
    ELSE /\ OutIs(ev.out, Called(ev)) /\ ev.calls = (IF Called(ev).ok THEN 1 ELSE 0)

Holds(ev) == CASE ev.op = "um" -> OutIs(ev.out, Expected(ev))
               [] OTHER -> CalledWell(ev)
Want(ev) == ToString(CASE ev.op = "um" -> Expected(ev) [] OTHER -> Called(ev))

Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
