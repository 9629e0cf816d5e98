----------------------------- MODULE JudgeConfig -----------------------------
(* Judges recorded histories of config files and of commands that use them. *)
EXTENDS Commands, History, Judge

Known == { <<".","j","s","o","n">>, <<".","y","a","m","l">>, <<".","y","m","l">> }
Init0 == [fs |-> <<>>, cwd |-> <<>>, exts |-> Known]
(* trees are recorded as sequences *)
Seen(o) == IF o.out[1] # "tree" THEN o
           ELSE [o EXCEPT !.out = IF Cardinality(Range(o.out[2])) = Len(o.out[2]) THEN <<"tree", Range(o.out[2])>>
                                  ELSE <<"twice">>]
Ops(ev) == [i \in 1..Len(ev.ops) |-> Seen(ev.ops[i])]
Holds(ev) == Accepts(CommandStep, Init0, Ops(ev))
Want(ev) == ToString(FirstBad(CommandStep, Init0, Ops(ev)))
Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
