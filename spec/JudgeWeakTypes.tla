----------------------------- MODULE JudgeWeakTypes -----------------------------
(* Judges recorded histories. *)
EXTENDS WeakTypes, History, Judge

Holds(ev) == Accepts(TypesStep, FreshTypes, ev.ops)
Want(ev) == ToString(FirstBad(TypesStep, FreshTypes, ev.ops))
Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
