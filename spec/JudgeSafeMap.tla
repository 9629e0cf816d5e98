---------------------------- MODULE JudgeSafeMap ----------------------------
(* Judges recorded histories of dictionaries and value caches. *)
EXTENDS SafeMap, History, Judge

Holds(ev) == Accepts(Step, Fresh(ev.typed), ev.ops)
Want(ev) == ToString(FirstBad(Step, Fresh(ev.typed), ev.ops))
Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
