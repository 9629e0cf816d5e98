------------------------------ MODULE MCSafeMap ------------------------------
(* All histories of insertions and deletions of a few keys, of a dictionary *)
(* or of a value cache; after every call all items are looked at.           *)
EXTENDS SafeMap, TLC, Json
CONSTANTS Depth, Typed

Pool == << [c |-> 1, h |-> TRUE, y |-> 1], [c |-> 2, h |-> TRUE, y |-> 1],
           [c |-> 1, h |-> FALSE, y |-> 3], [c |-> 2, h |-> FALSE, y |-> 3],
           [c |-> 1, h |-> TRUE, y |-> 2] >>
VARIABLES s, hist, seen
vars == <<s, hist, seen>>
Init == s = Fresh(Typed) /\ hist = <<>> /\ seen = <<>>
Do(o) == /\ Len(hist) < Depth
         /\ \E r \in Step(s, o) : s' = r.s /\ seen' = Append(seen, <<r.out, Items(r.s)>>)
         /\ hist' = Append(hist, o)
Next == \/ \E i \in 1..Len(Pool) : Do([op |-> "set", k |-> Pool[i], v |-> Len(hist)])
        \/ \E i \in 1..4 : Do([op |-> "del", k |-> Pool[i]])
        \/ Typed /\ \E i \in {1, 3, 5} : Do([op |-> "look", k |-> Pool[i]])
Spec == Init /\ [][Next]_vars
Emit == IF Len(hist) = Depth THEN PrintT(ToJson([ops |-> hist, seen |-> seen])) ELSE TRUE

KeysDistinct == Distinct(s)
(* nothing but the key of the call moves or changes *)
Others(t, k) == SelectSeq(t.m, LAMBDA p : ~Same(t, p[1], k))
Local == [][LET o == hist'[Len(hist')] IN Others(s', o.k) = Others(s, o.k)]_vars
=============================================================================
