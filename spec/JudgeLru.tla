------------------------------ MODULE JudgeLru ------------------------------
(* Judges recorded histories of cached functions. *)
EXTENDS Lru, History, Judge

Holds(ev) == Accepts(Step, Start(ev.caches), ev.ops)
Want(ev) == ToString(FirstBad(Step, Start(ev.caches), ev.ops))
Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
