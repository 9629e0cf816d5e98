---------------------------- MODULE JudgeElement ----------------------------
(* Judges recorded calls of the editing functions. *)
EXTENDS Element, PathText, Judge

OutIs(out, r) ==
    IF r.ok THEN out.k = "ok" /\ out.v = r.v
    ELSE /\ out.k = "path"
         /\ Split(out.at, Dot) = [ok |-> TRUE, fields |-> r.at]

BadPath(ev) == ~Split(ev.p, Dot).ok
P(ev) == Split(ev.p, Dot).fields

RemoveFrom(ev) ==
    IF IsSeq(ev.e) \/ IsMap(ev.e) THEN DropAt(ev.e, P(ev)) ELSE PathErr(<<>>)

StepsOk(ev) ==
    LET want == SelectSteps(ev.e, <<>>, P(ev))
        r == Select(ev.e, P(ev))
    IN /\ Len(ev.steps) = Len(want)
       /\ \A i \in 1..Len(want) :
            /\ ev.steps[i][1] = want[i].v
            /\ Split(ev.steps[i][2], Dot) = [ok |-> TRUE, fields |-> want[i].done]
            /\ Split(ev.steps[i][3], Dot) = [ok |-> TRUE, fields |-> want[i].rest]
       /\ IF r.ok THEN ev.out.k = "ok" ELSE OutIs(ev.out, r)

Holds(ev) ==
    CASE ev.op = "select" -> IF BadPath(ev) THEN ev.out.k = "path"
                             ELSE OutIs(ev.out, Select(ev.e, P(ev)))
      [] ev.op = "steps" -> IF BadPath(ev) THEN ev.out.k = "path" ELSE StepsOk(ev)
      [] ev.op = "set" -> IF BadPath(ev) THEN ev.out.k = "path"
                          ELSE OutIs(ev.out, SetAt(ev.e, P(ev), ev.x, ev.combine))
      [] ev.op = "remove" -> IF BadPath(ev) THEN ev.out.k = "path"
                             ELSE OutIs(ev.out, RemoveFrom(ev))
      [] ev.op = "merge" -> OutIs(ev.out, Done(MergeAll(ev.es, ev.concat)))
      [] ev.op = "missing" -> ev.out.k = "ok" /\ ev.out.v = Bool(HasMissing(ev.e))
      [] ev.op = "standardize" -> ev.out.k = "ok" /\ ev.out.v = Dressed(ev.e, ev.map, ev.seq)

Want(ev) ==
    CASE ev.op \in {"select", "steps"} -> ToString(Select(ev.e, P(ev)))
      [] ev.op = "set" -> ToString(SetAt(ev.e, P(ev), ev.x, ev.combine))
      [] ev.op = "remove" -> ToString(RemoveFrom(ev))
      [] ev.op = "merge" -> ToString(MergeAll(ev.es, ev.concat))
      [] ev.op = "missing" -> ToString(HasMissing(ev.e))
      [] OTHER -> ToString(Dressed(ev.e, ev.map, ev.seq))

Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
