----------------------------- MODULE JudgeOrder -----------------------------
(* Judges recorded histories of orders and registries. *)
EXTENDS Order, History, Judge

Entry(x) == [v |-> x.v, p |-> x.p, lo |-> {}, hi |-> {}, n |-> 0]
From(ev) == [q |-> [i \in 1..Len(ev.start) |-> Entry(ev.start[i])], n |-> 1,
             info |-> [i \in 1..Len(ev.start) |->
                         <<ev.start[i].v, [wrap |-> FALSE, fits |-> ev.start[i].fits]>>]]
Holds(ev) == Accepts(Step, From(ev), ev.ops)
Want(ev) == ToString(FirstBad(Step, From(ev), ev.ops))
Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
