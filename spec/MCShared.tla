------------------------------ MODULE MCShared ------------------------------
(* All interleavings of a few iterations over a short source. *)
EXTENDS Shared, TLC, Json
CONSTANTS Depth, Consumers

Sources == { <<>>, <<"a">>, <<"a", "b">>, <<"a", "b", "a">>, <<"a", "!", "b">>, <<"!">> }
VARIABLES s, hist, outs, given
vars == <<s, hist, outs, given>>
Init == \E src \in Sources : s = Fresh(src) /\ hist = <<>> /\ outs = <<>> /\ given = <<>>
Do(o) == /\ Len(hist) < Depth
         /\ \E r \in Step(s, o) :
              /\ s' = r.s /\ outs' = Append(outs, r.out)
              /\ given' = IF o.op = "new" THEN Append(given, <<>>)
                          ELSE IF o.op = "next" /\ r.out[1] \notin {"end", "raise"}
                          THEN [given EXCEPT ![o.c] = Append(@, r.out[1])] ELSE given
         /\ hist' = Append(hist, o)
Next == \/ Len(s.c) < Consumers /\ Do([op |-> "new"])
        \/ \E n \in 1..Len(s.c) : Do([op |-> "next", c |-> n])
        \/ Do([op |-> "bool"])
Spec == Init /\ [][Next]_vars
Emit == IF Len(hist) = Depth
        THEN PrintT(ToJson([items |-> s.items, ops |-> hist, outs |-> outs])) ELSE TRUE
Ordered == InOrder(s)
(* every iteration has been given the first items, each once and in order *)
AllGiven == \A n \in 1..Len(given) : Prefix(given[n], Good(s))
DrawnOnce == s.at <= Len(s.items)
=============================================================================
