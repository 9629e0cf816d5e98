----------------------------- MODULE JudgePool -----------------------------
(* Judges recorded histories. *)
EXTENDS Pool, History, Judge

Holds(ev) == Accepts(PoolStep, FreshPool, ev.ops)
Want(ev) == ToString(FirstBad(PoolStep, FreshPool, ev.ops))
Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
