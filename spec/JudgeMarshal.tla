---------------------------- MODULE JudgeMarshal ----------------------------
(* Judges recorded round trips: the element a value marshals to, and what  *)
(* comes back directly, through a config file and through text.            *)
EXTENDS Marshal, Judge

Is(out, r) == IF r.ok THEN out.k = "ok" /\ Equal(out.v, r.v)
              ELSE out.k \in {"unmarshal", "missing"}
Back(ev) == UM(ev.t, M(ev.v), <<>>, ev.env)
(* numbers without a fraction are integers in a text *)
RECURSIVE InText(_)
InText(e) ==
    CASE Tag(e) = "t" -> <<"t", [i \in 1..Len(e[2]) |-> InText(e[2][i])]>>
      [] Tag(e) = "d" -> <<"d", [i \in 1..Len(e[2]) |-> <<e[2][i][1], InText(e[2][i][2])>>]>>
      [] Tag(e) = "f" /\ FloatIsInteger(e) -> CastInt(e).v
      [] OTHER -> e
(* sequences of a file are lists *)
RECURSIVE InFile(_)
InFile(e) ==
    CASE Tag(e) = "t" -> <<"l", [i \in 1..Len(e[2]) |-> InFile(e[2][i])]>>
      [] Tag(e) = "d" -> <<"d", [i \in 1..Len(e[2]) |-> <<e[2][i][1], InFile(e[2][i][2])>>]>>
      [] OTHER -> e
Holds(ev) ==
    /\ ev.m.k = "ok" /\ ev.m.v = M(ev.v) /\ JsonLike(M(ev.v))
    /\ RoundTrips(ev.t, ev.v, ev.env)
    /\ Is(ev.back, Back(ev))
    /\ "file" \in DOMAIN ev => Is(ev.file, UM(ev.t, InFile(M(ev.v)), <<>>, ev.env))
    /\ "intext" \in DOMAIN ev => Is(ev.intext, UM(ev.t, InText(M(ev.v)), <<>>, ev.env))
Want(ev) == ToString(<<M(ev.v), Safe(ev.t, ev.v, ev.env), Back(ev)>>)

Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
