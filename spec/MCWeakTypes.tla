----------------------------- MODULE MCWeakTypes -----------------------------
(* All histories of a few calls with three types; all of them are looked at *)
(* after every call.                                                        *)
EXTENDS WeakTypes, TLC, Json
CONSTANT Depth

Types == 1..3
VARIABLES s, lost, hist, seen
vars == <<s, lost, hist, seen>>
Init == s = FreshTypes /\ lost = {} /\ hist = <<>> /\ seen = <<>>
Do(o) == /\ Len(hist) < Depth
         /\ \E r \in TypesStep(s, o) : s' = r.s /\ seen' = Append(seen, r.s.order)
         /\ hist' = Append(hist, o)
         /\ lost' = IF o.op = "gone" THEN lost \cup {o.i} ELSE lost
Next == \/ \E i \in Types \ lost, w \in {"add", "gone"} : Do([op |-> w, i |-> i])
        \/ \E w \in {"skip", "alias", "clear"} : Do([op |-> w])
Spec == Init /\ [][Next]_vars
Emit == IF Len(hist) = Depth THEN PrintT(ToJson([ops |-> hist, seen |-> seen])) ELSE TRUE
Distinct == EachOnce(s)
Living == \A i \in lost : ~InTypes(s, i)
LatestFirst == [][hist'[Len(hist')].op = "add" => s'.order[1] = hist'[Len(hist')].i]_vars
=============================================================================
