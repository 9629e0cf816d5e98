------------------------------- MODULE MCPool -------------------------------
(* All histories of a few calls on a pool with caches of two names. *)
EXTENDS Pool, TLC, Json
CONSTANT Depth

K == [c |-> 1, h |-> TRUE, y |-> 1]
VARIABLES p, hist, outs
vars == <<p, hist, outs>>
Init == p = FreshPool /\ hist = <<>> /\ outs = <<>>
Do(o) == /\ Len(hist) < Depth
         /\ \E r \in PoolStep(p, o) : p' = r.s /\ outs' = Append(outs, r.out)
         /\ hist' = Append(hist, o)
Looks == { [op |-> "names"], [op |-> "infos"], [op |-> "which", n |-> "a"] }
Next == \/ Len(p.caches) < 2 /\ \E n \in {"a", "b"} : Do([op |-> "new", n |-> n])
        \/ \E c \in 1..Len(p.caches) : Do([op |-> "give", n |-> "b", c |-> c])
        \/ \E c \in 1..Len(p.caches), o \in { [op |-> "set", k |-> K, v |-> Len(hist)], [op |-> "look", k |-> K] } :
              Do([op |-> "at", c |-> c, o |-> o])
        \/ \E w \in {"clear", "off", "on"} : Do([op |-> "all", what |-> w])
        \/ Len(hist) = Depth - 1 /\ \E o \in Looks : Do(o)
Spec == Init /\ [][Next]_vars
Emit == IF Len(hist) = Depth THEN PrintT(ToJson([ops |-> hist, outs |-> outs])) ELSE TRUE
NamesDistinct == OneName(p)
AreCleared == Cleared(p)
LivesOn == [][hist'[Len(hist')].op = "all" => Alone(p, p')]_vars
=============================================================================
