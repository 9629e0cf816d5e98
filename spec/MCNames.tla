------------------------------- MODULE MCNames -------------------------------
(* All histories of a few calls on two namespaces over five classes. *)
EXTENDS Names, TLC, Json
CONSTANTS Depth

C(c, up, fields) == [c |-> c, up |-> up, fields |-> fields]
X == [f |-> "x", t |-> <<"int">>, d |-> << <<"int", 0>> >>]
Y == [f |-> "y", t |-> <<"opt", <<"cls", "B">>>>, d |-> << <<"none">> >>]
K == [keys |-> <<"x", "y">>,
      classes |-> << C("B", <<"B">>, <<>>), C("A", <<"A", "B">>, <<X>>), C("E", <<"E", "A", "B">>, <<X, Y>>),
                     C("O", <<"O">>, <<>>), C("P", <<"P", "O", "B">>, <<Y>>) >>]
New(n, c) == [op |-> "new", n |-> n, c |-> c]
Reg(n, name, c, replace) == [op |-> "reg", n |-> n, name |-> name, c |-> c, replace |-> replace]
Obj(c, pairs) == <<"obj", c, pairs>>
N(name, pairs) == <<"map", pairs \o << <<"name", <<"str", name>>>> >>>>
Use(c, e) == [op |-> "use", t |-> <<"cls", c>>, e |-> e]
X1 == <<"x", <<"int", 1>>>>
Inner == <<"y", N("a", <<>>)>>
Changes == { New("m", "B"), New("k", "A"), New("k", "O"), [op |-> "del", n |-> "m"], [op |-> "del", n |-> "k"],
             Reg("m", "a", "A", FALSE), Reg("m", "a", "E", TRUE), Reg("m", "b", "P", FALSE), Reg("m", "b", "A", TRUE),
             Reg("k", "a", "P", TRUE), Reg("k", "b", "E", FALSE) }
Looks == { Use("B", N("a", <<X1>>)), Use("B", N("b", <<Inner>>)), Use("A", N("b", <<>>)), Use("O", N("b", <<>>)),
           Use("P", N("a", <<>>)), Use("P", <<"map", <<Inner>>>>),
           [op |-> "use", t |-> <<"list", <<"cls", "B">>>>, e |-> <<"seq", << N("a", <<>>), <<"map", <<>>>> >>>>],
           [op |-> "use", t |-> <<"union", << <<"cls", "A">>, <<"cls", "O">> >>>>, e |-> N("b", <<>>)],
           [op |-> "build", n |-> "m", name |-> "b", e |-> <<"map", <<Inner>>>>] }
Objects == { Obj("A", <<X1>>), Obj("P", << <<"y", Obj("A", <<X1>>)>> >>),
             Obj("E", << X1, <<"y", Obj("E", << X1, <<"y", <<"none">>>> >>)>> >>) }
Ops == Changes \cup Looks \cup { [op |-> "marshal", v |-> v] : v \in Objects }
Live(s, o) == o.op \in {"reg", "build"} => At(s, o.n) # {}

VARIABLES s, hist
vars == <<s, hist>>
Init == s = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in IF Len(hist) = Depth - 1 THEN Ops \ Changes
                    ELSE IF Len(hist) = 0 THEN {x \in Changes : x.op = "new"}
                    ELSE Changes \cup Looks :
             /\ Live(s, o)
             /\ \E r \in Do(K, s, o) : s' = r.s /\ hist' = Append(hist, [out |-> r.out] @@ o)
Spec == Init /\ [][Next]_vars
Emit == IF Len(hist) = Depth THEN PrintT(ToJson([ops |-> hist])) ELSE TRUE
IsFoundAgain == \A v \in Objects, c \in {"B", "A", "E", "O", "P"} : FoundAgain(K, s, c, v)
IsLast == LastOne(K, s, hist)
=============================================================================
