----------------------------- MODULE JudgeNames -----------------------------
(* Judges recorded histories of namespaces. *)
EXTENDS Names, History, Judge

Know(ev) == [classes |-> ev.classes, keys |-> ev.keys]
Holds(ev) == Accepts(LAMBDA s, o : Do(Know(ev), s, o), <<>>, ev.ops)
Want(ev) == ToString(FirstBad(LAMBDA s, o : Do(Know(ev), s, o), <<>>, ev.ops))
Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
