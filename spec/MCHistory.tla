----------------------------- MODULE MCHistory -----------------------------
(***************************************************************************)
(* Histories of uses of types that are easily taken for each other, with   *)
(* the cache of schemas of the implementation: an entry made for one type  *)
(* answers for every type that python finds equal, unless the order of the *)
(* parts of the type matters.  The cache has to be transparent: what a use *)
(* gives is what the type and the element alone give.                      *)
(***************************************************************************)
EXTENDS Unmarshal, TLC, Json
CONSTANTS Depth, Bypass   \* Bypass: are types whose order matters kept out of the cache?

I(n) == <<"i", FALSE, IF n = 0 THEN <<"0">> ELSE <<"1">> >>
S(s) == <<"s", s>>
One1 == S(<<"1">>)
L(x) == <<"l", <<x>> >>
IntStr == <<"union", << <<"int">>, <<"str">> >> >>
StrInt == <<"union", << <<"str">>, <<"int">> >> >>
LitOf(a, b) == <<"lit", <<a, b>> >>
D(dflt) == <<"struct", "dc", "D0", << [n |-> <<"a">>, t |-> <<"any">>, d |-> <<dflt>>, opt |-> FALSE,
                                       k |-> "pk", f |-> FALSE, iv |-> FALSE] >> >>
DT(t) == <<"struct", "dc", "D0", << [n |-> <<"a">>, t |-> t, d |-> <<>>, opt |-> FALSE,
                                     k |-> "pk", f |-> FALSE, iv |-> FALSE] >> >>
KeyA == <<"s", <<"a">> >>
Types == <<
    <<"list", IntStr>>, <<"list", StrInt>>,
    <<"dict", <<"str">>, LitOf(One1, I(1))>>, <<"dict", <<"str">>, LitOf(I(1), One1)>>,
    <<"list", <<"lit", <<I(1)>> >> >>, <<"list", <<"lit", << <<"b", TRUE>> >> >> >>,
    D(I(1)), D(<<"b", TRUE>>), DT(IntStr), DT(StrInt),
    <<"tuple", <<IntStr, <<"list", StrInt>> >> >> >>
Elements == <<
    L(One1), L(One1),
    <<"d", << <<KeyA, One1>> >> >>, <<"d", << <<KeyA, One1>> >> >>,
    L(<<"b", TRUE>>), L(I(1)),
    <<"d", <<>> >>, <<"d", <<>> >>, <<"d", << <<KeyA, One1>> >> >>, <<"d", << <<KeyA, One1>> >> >>,
    <<"l", <<One1, L(One1)>> >> >>
N == Len(Types)
Meaning == [i \in 1..N |-> UM(Types[i], Elements[i], <<>>, <<>>)]
MeaningAs == [p \in (1..N) \X (1..N) |-> UM(Types[p[1]], Elements[p[2]], <<>>, <<>>)]

(* what python compares of a type *)
RECURSIVE Key(_, _)
Key(t, who) ==
    CASE Tag(t) \in {"union", "lit"} ->
            <<Tag(t), {IF t[1] = "lit" THEN t[2][i] ELSE Key(t[2][i], who) : i \in 1..Len(t[2])}>>
      [] Tag(t) = "list" -> <<"list", Key(t[2], who)>>
      [] Tag(t) = "dict" -> <<"dict", Key(t[2], who), Key(t[3], who)>>
      [] Tag(t) = "tuple" -> <<"tuple", [i \in 1..Len(t[2]) |-> Key(t[2][i], who)]>>
      [] Tag(t) = "struct" -> <<"class", who>>
      [] OTHER -> t
RECURSIVE OrderMatters(_)
OrderMatters(t) ==
    CASE Tag(t) \in {"union", "lit"} -> TRUE
      [] Tag(t) = "list" -> OrderMatters(t[2])
      [] Tag(t) = "dict" -> OrderMatters(t[3])
      [] Tag(t) = "tuple" -> \E i \in 1..Len(t[2]) : OrderMatters(t[2][i])
      [] OTHER -> FALSE

VARIABLES cache,     \* pairs of a key and the type its schema was made for
          gen,       \* how often a type was dropped: a class defined anew is another class
          hist, outs
vars == <<cache, gen, hist, outs>>
Init == cache = <<>> /\ gen = [i \in 1..N |-> 0] /\ hist = <<>> /\ outs = <<>>

Cached(key) == {i \in 1..Len(cache) : cache[i][1] = key}
Use(i) ==
    LET key == Key(Types[i], <<i, gen[i]>>)
        kept == ~(Bypass /\ OrderMatters(Types[i]))
        found == kept /\ Cached(key) # {}
        who == IF found THEN cache[CHOOSE j \in Cached(key) : TRUE][2] ELSE i
    IN /\ cache' = IF kept /\ ~found THEN Append(cache, <<key, i>>) ELSE cache
       /\ hist' = Append(hist, [op |-> "use", i |-> i])
       /\ outs' = Append(outs, MeaningAs[<<who, i>>])
       /\ UNCHANGED gen
Clear == /\ cache' = <<>> /\ hist' = Append(hist, [op |-> "clear", i |-> 0])
         /\ outs' = Append(outs, Err) /\ UNCHANGED gen
Drop(i) == /\ \E j \in 1..Len(hist) : hist[j].op = "use" /\ hist[j].i = i
           /\ gen' = [gen EXCEPT ![i] = @ + 1]
           /\ hist' = Append(hist, [op |-> "drop", i |-> i])
           /\ outs' = Append(outs, Err) /\ UNCHANGED cache
Next == /\ Len(hist) < Depth
        /\ \/ \E i \in 1..N : Use(i) \/ Drop(i)
           \/ Clear
Spec == Init /\ [][Next]_vars

Transparent == \A j \in 1..Len(hist) : hist[j].op = "use" => outs[j] = Meaning[hist[j].i]
Case(j) == [op |-> hist[j].op, i |-> hist[j].i,
            e |-> IF hist[j].i > 0 THEN Elements[hist[j].i] ELSE <<"N">>,
            out |-> IF outs[j].ok THEN <<"ok", Norm(outs[j].v)>> ELSE <<"err">>]
Emit == IF Len(hist) = Depth /\ hist[Depth].op = "use"
        THEN PrintT(ToJson([ops |-> [j \in 1..Depth |-> Case(j)]])) ELSE TRUE
ASSUME PrintT(ToJson([types |-> Types]))
=============================================================================
