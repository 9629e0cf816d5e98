------------------------------- MODULE History -------------------------------
(* Recorded histories: ev.ops is the list of calls with what each call gave *)
(* (`out`); a history is accepted if some run of the machine gives just     *)
(* that.  Step(s, o) is the set of allowed [s, out].                        *)
EXTENDS Integers, Sequences, SequencesExt

Allowed(Step(_, _), S, o) == UNION { Step(s, o) : s \in S }
After(Step(_, _), S, o) == { r.s : r \in { x \in Allowed(Step, S, o) : x.out = o.out } }
Runs(Step(_, _), s0, ops) == FoldLeft(LAMBDA S, o : After(Step, S, o), {s0}, ops)
Accepts(Step(_, _), s0, ops) == Runs(Step, s0, ops) # {}
(* the first call with an outcome that is not allowed, and those that are *)
FirstBad(Step(_, _), s0, ops) ==
    LET bad == { n \in 1..Len(ops) : ~Accepts(Step, s0, SubSeq(ops, 1, n)) }
        n == CHOOSE n \in bad : \A m \in bad : n <= m
    IN <<n, { r.out : r \in Allowed(Step, Runs(Step, s0, SubSeq(ops, 1, n - 1)), ops[n]) }>>
=============================================================================
