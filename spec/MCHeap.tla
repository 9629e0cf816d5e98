------------------------------- MODULE MCHeap -------------------------------
(* All short editing histories over a few elements that share parts. *)
EXTENDS Heap, TLC, Json
CONSTANTS Depth

A == <<"a">>
K(c) == Str(<<c>>)
Starts == <<
  <<"d", << <<K("a"), <<"t", <<FromInt(5)>>>> >> >> >>,
  <<"t", << <<"d", << <<K("a"), FromInt(5)>> >> >> >> >>,
  <<"d", << <<K("a"), <<"d", << <<K("0"), K("x")>> >> >> >>, <<K("0"), Missing>> >> >>
>>
Paths == { <<A>>, << <<"0">> >>, <<A, <<"0">> >> }

VARIABLES versions, ops, start
vars == <<versions, ops, start>>

Init == /\ start \in 1..Len(Starts) /\ versions = <<Starts[start]>> /\ ops = <<>>

Do(o) == /\ versions' = After(versions, o)
         /\ ops' = Append(ops, o)
         /\ start' = start
N == Len(versions)
Next ==
    \/ /\ Len(ops) < Depth
       /\ \/ \E i \in 1..N, p \in Paths, op \in {"select", "remove"} :
               Do([op |-> op, i |-> i, j |-> i, p |-> p])
          \/ \E i, j \in 1..N, p \in Paths, op \in {"set", "combine"} :
               Do([op |-> op, i |-> i, j |-> j, p |-> p])
          \/ \E i, j \in 1..N, op \in {"merge", "concat"} :
               Do([op |-> op, i |-> i, j |-> j, p |-> <<>>])
Emit == IF Len(ops) = Depth THEN PrintT(ToJson([ops |-> ops, versions |-> versions])) ELSE TRUE

(* Earlier elements never change. *)
Frozen == [][SubSeq(versions', 1, Len(versions)) = versions]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
