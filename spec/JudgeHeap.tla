------------------------------ MODULE JudgeHeap ------------------------------
(* Judges recorded editing histories: after every edit, all elements. *)
EXTENDS Heap, PathText, Judge

Parsed(o) == [o EXCEPT !.p = Fields(@, Dot)]
RECURSIVE Run(_, _, _)
Run(vs, ops, n) == IF n = 0 THEN vs ELSE After(Run(vs, ops, n - 1), Parsed(ops[n]))
Holds(ev) ==
    /\ ev.frozen
    /\ \A n \in 1..Len(ev.ops) : ev.after[n] = Run(<<ev.start>>, ev.ops, n)
Want(ev) == ToString(Run(<<ev.start>>, ev.ops, Len(ev.ops)))
Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
