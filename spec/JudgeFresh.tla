----------------------------- MODULE JudgeFresh -----------------------------
(* Judges recorded calls of unmarshal and marshal by the containers shared. *)
EXTENDS Fresh, Judge

Expected(ev) == UM(ev.t, With(And(ev.e, ev.more), ev.kw), <<>>, ev.env)
Untouched(ev) == ev.more = ev.moreafter /\ ev.kw = ev.kwafter /\ ev.after = (IF ev.op = "um" THEN ev.e ELSE ev.v)
Holds(ev) ==
    /\ Untouched(ev)
    /\ IF ev.op = "ms" THEN ev.out.k = "ok" => AllNew(ev.out.v)
       ELSE LET r == Expected(ev)
            IN (ev.out.k = "ok") = r.ok /\ (r.ok => IsFresh(ev.out.v, r.v))
Want(ev) == ToString(<<Untouched(ev), IF ev.op = "um" THEN Expected(ev) ELSE Err>>)

Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
