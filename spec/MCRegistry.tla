----------------------------- MODULE MCRegistry -----------------------------
(* All histories of registering a few schemas and using types between. *)
EXTENDS Order, TLC, Json
CONSTANTS Depth

(* the schemas that come with the package fit the types t1 and t2 and h0 if its part fits, not t0 *)
Start == [q |-> << [v |-> "builtin", p |-> 0, lo |-> {}, hi |-> {}, n |-> 0] >>, n |-> 1,
          info |-> << <<"builtin", [wrap |-> FALSE, fits |-> <<"t1", "t2", "h0">>]>> >>]
A(v, p, lo, hi, wrap, fits, replace) ==
    [op |-> "add", v |-> v, p |-> p, lo |-> lo, hi |-> hi, wrap |-> wrap, fits |-> fits, replace |-> replace]
T12 == <<"t1", "t2">>
T01 == <<"t0", "t1">>
TH == <<"h0">>
Adds == { A("a", 100, <<>>, <<>>, FALSE, T12, FALSE), A("a", 102, <<>>, <<>>, FALSE, T12, TRUE),
          A("b", 100, <<>>, <<>>, FALSE, T01, FALSE), A("b", 100, <<>>, <<"a">>, FALSE, T01, TRUE),
          A("w", 100, <<>>, <<>>, TRUE, T01, FALSE), A("w", 101, <<"b">>, <<>>, TRUE, T01, TRUE),
          A("h", 100, <<>>, <<>>, FALSE, TH, TRUE),
          A("z", -1000, <<>>, <<>>, FALSE, T01, FALSE) }
U(how, toks) == [op |-> "use", how |-> how, toks |-> toks]
Uses == { U("list", <<"t1">>), U("field", <<"t0">>), U("union", <<"t0", "t2">>), U("plain", <<"t1">>), U("plain", <<"h0">>) }
VARIABLES s, hist, outs
vars == <<s, hist, outs>>
Init == s = Start /\ hist = <<>> /\ outs = <<>>
Do(o) == /\ Len(hist) < Depth
         /\ \E r \in Step(s, o) : s' = r.s /\ outs' = Append(outs, r.out)
         /\ hist' = Append(hist, o)
Next == \E o \in Adds \cup Uses : Do(o)
Spec == Init /\ [][Next]_vars
Emit == IF Len(hist) = Depth /\ hist[Depth].op = "use"
        THEN PrintT(ToJson([ops |-> hist, outs |-> outs])) ELSE TRUE
(* The schema used is, of those that match and are no wrappers, the first of the order. *)
Best == \A tok \in {"t0", "t1", "t2", "h0"} :
          LET c == Chain(s, tok) IN
          c # <<>> => \A i \in 1..Len(s.q) :
             (/\ ~Info(s, s.q[i].v).wrap
              /\ \E j \in 1..Len(Info(s, s.q[i].v).fits) : Info(s, s.q[i].v).fits[j] = tok)
               => \E k \in 1..i : s.q[k].v = c[Len(c)]
IsDistinct == Distinct(s)
NumberLaw == ByNumber(s)
RelationLaw == ByRelation(s)
=============================================================================
