----------------------------- MODULE MCElement -----------------------------
(***************************************************************************)
(* The editing machine over all small elements: every reachable element,   *)
(* every edit of it.  TLC checks the laws of editing on the specification  *)
(* and prints, for every element, the result of every operation; the       *)
(* driver replays each of them in the code.                                *)
(***************************************************************************)
EXTENDS Element, TLC, Json

CONSTANTS What, MaxSize, MaxDepth

Names == << <<"a">>, <<"0">>, <<"b", ".">> >>
Indices == << <<"1">>, <<"-", "1">> >>
FieldSeq == Names \o Indices
NF == Len(FieldSeq)
Paths1 == [i \in 1..NF |-> <<FieldSeq[i]>>]
Paths2 == [n \in 1..(NF * NF) |->
            <<FieldSeq[((n - 1) \div NF) + 1], FieldSeq[((n - 1) % NF) + 1]>>]
PathSeq == << <<>> >> \o Paths1 \o Paths2
NewValues == << <<"s", <<"x">>>>, None, Missing, <<"t", <<FromInt(7)>>>>,
                <<"d", << <<Str(<<"a">>), Str(<<"y">>)>> >> >>,
                <<"t", <<>>>>, EmptyMap >>
Starts == { EmptyMap, <<"t", <<>>>>, Missing, None, Str(<<"a">>),
            <<"t", <<Str(<<"x">>), Missing>>>>,
            <<"d", << <<Str(<<"0">>), <<"t", <<FromInt(7)>>>> >>,
                      <<Str(<<"a">>), <<"d", << <<Str(<<"b", ".">>), FromInt(1)>> >> >> >> >> >> }

RECURSIVE Size(_)
Size(e) == IF IsSeq(e) THEN 1 + FoldLeft(LAMBDA a, x : a + Size(x), 0, Items(e))
           ELSE IF IsMap(e) THEN 1 + FoldLeft(LAMBDA a, p : a + Size(p[2]), 0, Pairs(e))
           ELSE 1
RECURSIVE Depth(_)
Depth(e) == IF IsSeq(e) THEN 1 + FoldLeft(LAMBDA a, x : MaxOf(a, Depth(x)), 0, Items(e))
            ELSE IF IsMap(e) THEN 1 + FoldLeft(LAMBDA a, p : MaxOf(a, Depth(p[2])), 0, Pairs(e))
            ELSE 0
Small(e) == Size(e) <= MaxSize /\ Depth(e) <= MaxDepth

VARIABLE elem
Init == elem \in Starts
ASSUME PrintT(ToJson([paths |-> PathSeq, values |-> NewValues]))

Sets == [n \in 1..(Len(PathSeq) * Len(NewValues)) |->
          LET p == PathSeq[((n - 1) \div Len(NewValues)) + 1]
              v == NewValues[((n - 1) % Len(NewValues)) + 1]
          IN [p |-> p, v |-> v]]
Removals == Tail(PathSeq)

Results ==
    CASE What = "set" ->
           [set |-> [i \in 1..Len(Sets) |-> SetAt(elem, Sets[i].p, Sets[i].v, FALSE)],
            combine |-> [i \in 1..Len(Sets) |-> SetAt(elem, Sets[i].p, Sets[i].v, TRUE)]]
      [] What = "remove" ->
           [remove |-> [i \in 1..Len(Removals) |->
                          IF IsSeq(elem) \/ IsMap(elem) THEN DropAt(elem, Removals[i])
                          ELSE PathErr(<<>>)]]
      [] What = "merge" ->
           [merge |-> [i \in 1..Len(NewValues) |-> MergeAll(<<elem, NewValues[i]>>, FALSE)],
            concat |-> [i \in 1..Len(NewValues) |-> MergeAll(<<elem, NewValues[i]>>, TRUE)],
            before |-> [i \in 1..Len(NewValues) |-> MergeAll(<<NewValues[i], elem>>, FALSE)]]
      [] OTHER ->
           [select |-> [i \in 1..Len(PathSeq) |-> Select(elem, PathSeq[i])],
            missing |-> HasMissing(elem)]

Edit(r) == /\ r.ok /\ Small(r.v) /\ elem' = r.v
Next ==
    /\ PrintT(ToJson([elem |-> elem, res |-> Results]))
    /\ \/ \E i \in 1..Len(Sets) :
            \/ Edit(SetAt(elem, Sets[i].p, Sets[i].v, FALSE))
            \/ Edit(SetAt(elem, Sets[i].p, Sets[i].v, TRUE))
       \/ /\ IsSeq(elem) \/ IsMap(elem)
          /\ \E i \in 1..Len(Removals) : Edit(DropAt(elem, Removals[i]))
       \/ \E i \in 1..Len(NewValues) : Edit(Done(MergeAll(<<elem, NewValues[i]>>, TRUE)))
Spec == Init /\ [][Next]_elem

-----------------------------------------------------------------------------
(* Laws *)
PathSet == {PathSeq[i] : i \in 1..Len(PathSeq)}
ValueSet == {NewValues[i] : i \in 1..Len(NewValues)}

(* Steps of a path that name no key of a mapping but an index stay the     *)
(* same place as long as the length of the sequence does.                  *)
Appends(e, p) ==      \* some step of p is one past the end of a sequence
    \E n \in 0..(Len(p) - 1) :
        LET r == Select(e, SubSeq(p, 1, n))
        IN r.ok /\ IsSeq(r.v) /\ SeqPos(p[n + 1], Len(Items(r.v))) = Len(Items(r.v)) + 1

SetThenSelect ==
    \A p \in PathSet, v \in ValueSet :
        LET r == SetAt(elem, p, v, FALSE)
        IN r.ok => Select(r.v, p) = Done(v)
SetCreatesIntermediate ==   \* over a mapping (or nothing yet) every path of fields can be set
    \A p \in PathSet : SetAt(Missing, p, None, FALSE).ok
SetKeepsRest ==
    \A p, q \in PathSet : \A v \in {None} :
        LET r == SetAt(elem, p, v, FALSE)
            old == Select(elem, q)
            IsPre(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
            names == {Names[i] : i \in {1, 3}}
            onlyNames(x) == \A i \in 1..Len(x) : x[i] \in names
        IN (r.ok /\ old.ok /\ onlyNames(p) /\ onlyNames(q) /\ ~IsPre(p, q) /\ ~IsPre(q, p))
              => Select(r.v, q) = old
RemoveForgets ==
    \A i \in 1..Len(Removals) :
        (IsSeq(elem) \/ IsMap(elem)) =>
            LET p == Removals[i]
                r == DropAt(elem, p)
                parent == Select(elem, SubSeq(p, 1, Len(p) - 1))
            IN /\ r.ok = Select(elem, p).ok
               /\ r.ok => IF IsMap(parent.v)
                          THEN Select(r.v, SubSeq(p, 1, Len(p) - 1)) =
                                 Done(<<"d", DropPairs(Pairs(parent.v), Str(p[Len(p)]))>>)
                          ELSE Len(Items(Select(r.v, SubSeq(p, 1, Len(p) - 1)).v))
                                 = Len(Items(parent.v)) - 1
MergePrecedence ==
    \A v \in ValueSet :
        LET m == MergeAll(<<elem, v>>, FALSE)
        IN /\ MergeAll(<<elem, Missing>>, FALSE) = elem
           /\ (IsMap(elem) /\ IsMap(v)) =>
                \A i \in 1..Len(Pairs(m)) :
                    LET k == Pairs(m)[i][1] IN HasKey(elem, k) \/ HasKey(v, k)
           /\ ~(IsMap(elem) /\ IsMap(v)) => m = (IF IsMissing(v) THEN elem ELSE v)
MergeAssociative ==
    \A v, w \in ValueSet :
        (\A x \in {elem, v, w} : IsMap(x)) =>
            SameUpToKeyOrder(MergeAll(<<elem, v, w>>, FALSE),
                             MergeAll(<<elem, MergeAll(<<v, w>>, FALSE)>>, FALSE))
SelectSplit ==
    \A p, q \in PathSet :
        LET r == Select(elem, p) IN
        r.ok => LET s == Select(r.v, q)  w == Select(elem, p \o q)
                IN s.ok = w.ok /\ (s.ok => s.v = w.v) /\ (~s.ok => w.at = p \o s.at)
=============================================================================
