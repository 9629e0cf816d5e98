-------------------------------- MODULE MCLru --------------------------------
(* All short histories of one cached function called with a few arguments. *)
EXTENDS Lru, TLC, Json
CONSTANTS Depth, Max, Typed

Arg(c, y, h) == [c |-> c, y |-> y, h |-> h]
Lists == << [a |-> <<Arg(1, 2, TRUE), Arg(9, 1, TRUE)>>, k |-> <<>>],
            [a |-> <<Arg(2, 2, TRUE), Arg(9, 1, TRUE)>>, k |-> <<>>],
            [a |-> <<Arg(3, 2, TRUE), Arg(9, 1, TRUE)>>, k |-> <<>>],
            [a |-> <<Arg(1, 3, TRUE), Arg(9, 1, TRUE)>>, k |-> <<>>],
            [a |-> <<Arg(1, 2, TRUE)>>, k |-> << <<"y", Arg(9, 1, TRUE)>> >>],
            [a |-> <<Arg(7, 9, FALSE)>>, k |-> <<>>] >>
VARIABLES s, hist, outs
vars == <<s, hist, outs>>
Cfg == << [max |-> IF Max = 99 THEN -1 ELSE Max, typed |-> Typed, safe |-> TRUE, bind |-> ""] >>
Init == s = Start(Cfg) /\ hist = <<>> /\ outs = <<>>
Do(o) == /\ Len(hist) < Depth
         /\ \E r \in Step(s, o) : s' = r.s /\ outs' = Append(outs, r.out)
         /\ hist' = Append(hist, o)
CallOf(i, e) == [op |-> "call", f |-> 1, a |-> Lists[i].a, k |-> Lists[i].k, raise |-> e]
Next == \/ \E i \in 1..Len(Lists) : Do(CallOf(i, ""))
        \/ \E e \in {"ValueError", "TypeError"} : Do([CallOf(1, e) EXCEPT !.a[1].c = 8])
        \/ \E x \in {"clear", "off", "on"} : Do([op |-> x, f |-> 1])
Spec == Init /\ [][Next]_vars
Emit == IF Len(hist) = Depth
        THEN PrintT(ToJson([ops |-> hist, outs |-> outs, info |-> Info(s.f[1])])) ELSE TRUE
IsBounded == Bounded(s)
IsOneEach == OneEach(s)
(* one evaluation per arguments while they are kept *)
Once == [][LET o == hist'[Len(hist')] IN
           (o.op = "call" /\ s.f[1].on /\ \E i \in 1..Len(s.f[1].m) : s.f[1].m[i][1] = Key(s.f[1], o))
           => s'.runs = s.runs]_vars
(* calls while on are counted once each *)
Counted == [][LET o == hist'[Len(hist')] IN
              (o.op = "call" /\ s.f[1].on /\ Hashable(Key(s.f[1], o)))
              => s'.f[1].hits + s'.f[1].misses = s.f[1].hits + s.f[1].misses + 1]_vars
=============================================================================
