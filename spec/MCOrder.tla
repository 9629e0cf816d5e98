------------------------------- MODULE MCOrder -------------------------------
(* All histories of adding and removing a few values with numbers and       *)
(* relations; the order is looked at after every call.                      *)
EXTENDS Order, TLC, Json
CONSTANTS Depth, Size, Numbers, Deletes

Values == SubSeq(<<"a", "b", "c", "d">>, 1, Size)
VARIABLES s, hist, seen
vars == <<s, hist, seen>>
Init == s = Empty /\ hist = <<>> /\ seen = <<>>
Do(o) == /\ Len(hist) < Depth
         /\ \E r \in Step(s, o) : s' = r.s /\ seen' = Append(seen, <<r.out, Names(r.s)>>)
         /\ hist' = Append(hist, o)
Relations == { <<<<>>, <<>>>> } \cup { <<<<Values[i]>>, <<>>>> : i \in 1..Size }
                \cup { <<<<>>, <<Values[i]>>>> : i \in 1..Size }
                \cup { <<<<Values[1]>>, <<Values[2]>>>>, <<<<Values[2], Values[Size]>>, <<>>>> }
Next == \/ \E i \in 1..Size, p \in 0..Numbers - 1, r \in Relations :
             \* a new value, or an old one anew
             /\ Do([op |-> "add", v |-> Values[i], p |-> p, lo |-> r[1], hi |-> r[2],
                    replace |-> Where(s.q, Values[i]) # {} /\ Len(hist) # Depth - 1])
        \/ Deletes /\ \E i \in 1..Len(s.q) : Do([op |-> "del", from |-> i, to |-> i])
Spec == Init /\ [][Next]_vars
Emit == IF Len(hist) = Depth THEN PrintT(ToJson([ops |-> hist, seen |-> seen])) ELSE TRUE

IsDistinct == Distinct(s)
NumberLaw == ByNumber(s)
RelationLaw == ByRelation(s)
(* what is refused changes nothing *)
Refused == [][seen'[Len(seen')][1] = <<"ValueError">> => s' = s]_vars
=============================================================================
