----------------------------- MODULE JudgeShared -----------------------------
(* Judges recorded histories of shared iterators, of one thread or many. *)
EXTENDS Shared, History, Judge

Holds(ev) == IF ev.op = "threads" THEN Concurrent(ev.items, ev.seen, ev.draws)
             ELSE Accepts(Step, Fresh(ev.items), ev.ops)
Want(ev) == IF ev.op = "threads" THEN ToString(ev.items)
            ELSE ToString(FirstBad(Step, Fresh(ev.items), ev.ops))
Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
