------------------------------ MODULE Element ------------------------------
(***************************************************************************)
(* Editing elements: select, set, combine, remove and merge.  Paths are    *)
(* lists of fields (lists of characters) here; PathText reads them.        *)
(*                                                                         *)
(* Results: [ok |-> TRUE, v |-> element] or                                *)
(*          [ok |-> FALSE, at |-> path of the container that has no such   *)
(*           field or of the value that can not be traversed]              *)
(***************************************************************************)
EXTENDS Scalar

EmptyMap == <<"d", <<>>>>
Done(v) == [ok |-> TRUE, v |-> v]
PathErr(at) == [ok |-> FALSE, at |-> at]
Under(field, r) == IF r.ok THEN r ELSE [r EXCEPT !.at = <<field>> \o @]

(* The position (from 1) a field refers to in a sequence with n items,     *)
(* 0 if none.  A field may also count from the end.                        *)
SeqPos(field, n) ==
    LET r == PyInt(field)
    IN IF ~r.ok \/ ~IsSmall(r.v) THEN 0
       ELSE LET k == ToInt(r.v)
                p == IF k < 0 THEN k + n + 1 ELSE k + 1
            IN IF p >= 1 THEN p ELSE 0

RECURSIVE Select(_, _)
Select(e, fields) ==
    IF fields = <<>> THEN Done(e)
    ELSE LET f == fields[1] IN
    IF IsMap(e) THEN
        IF HasKey(e, Str(f)) THEN Under(f, Select(Get(e, Str(f)), Tail(fields)))
        ELSE PathErr(<<>>)
    ELSE IF IsSeq(e) THEN
        LET p == SeqPos(f, Len(Items(e))) IN
        IF p \in 1..Len(Items(e)) THEN Under(f, Select(Items(e)[p], Tail(fields)))
        ELSE PathErr(<<>>)
    ELSE PathErr(<<>>)

Combine(old, new) ==
    IF IsMap(old) /\ IsMap(new) THEN <<"d", UpdatePairs(Pairs(old), Pairs(new))>>
    ELSE IF IsSeq(old) /\ IsSeq(new) THEN <<"t", Items(old) \o Items(new)>>
    ELSE new

RECURSIVE SetAt(_, _, _, _)
SetAt(e0, fields, value, combine) ==
    IF fields = <<>> THEN Done(IF combine THEN Combine(e0, value) ELSE value)
    ELSE LET f == fields[1]
             e == IF IsMissing(e0) THEN EmptyMap ELSE e0 IN
    IF IsMap(e) THEN
        LET k == Str(f)
            r == SetAt(GetOr(e, k, EmptyMap), Tail(fields), value, combine)
        IN IF r.ok THEN Done(<<"d", PutPairs(Pairs(e), k, r.v)>>) ELSE Under(f, r)
    ELSE IF IsSeq(e) THEN
        LET n == Len(Items(e))
            p == SeqPos(f, n) IN
        IF p \in 1..(n + 1)
        THEN LET old == IF p <= n THEN Items(e)[p] ELSE EmptyMap
                 r == SetAt(old, Tail(fields), value, combine)
             IN IF r.ok
                THEN Done(<<"t", IF p <= n THEN [Items(e) EXCEPT ![p] = r.v]
                                 ELSE Append(Items(e), r.v)>>)
                ELSE Under(f, r)
        ELSE PathErr(<<>>)
    ELSE PathErr(<<>>)

RECURSIVE DropAt(_, _)
DropAt(e, fields) ==      \* fields # <<>>
    LET f == fields[1] IN
    IF IsMap(e) THEN
        LET k == Str(f) IN
        IF ~HasKey(e, k) THEN PathErr(<<>>)
        ELSE IF Len(fields) = 1 THEN Done(<<"d", DropPairs(Pairs(e), k)>>)
        ELSE LET r == DropAt(Get(e, k), Tail(fields))
             IN IF r.ok THEN Done(<<"d", PutPairs(Pairs(e), k, r.v)>>) ELSE Under(f, r)
    ELSE IF IsSeq(e) THEN
        LET p == SeqPos(f, Len(Items(e))) IN
        IF p \notin 1..Len(Items(e)) THEN PathErr(<<>>)
        ELSE IF Len(fields) = 1 THEN Done(<<"t", RemoveAt(Items(e), p)>>)
        ELSE LET r == DropAt(Items(e)[p], Tail(fields))
             IN IF r.ok THEN Done(<<"t", [Items(e) EXCEPT ![p] = r.v]>>) ELSE Under(f, r)
    ELSE PathErr(<<>>)

RECURSIVE Merge2(_, _, _)
Merge2(a, b, concat) ==
    IF IsMap(a) /\ IsMap(b) THEN
        LET new == SelectSeq(KeySeq(b), LAMBDA k : ~HasKey(a, k))
            keys == KeySeq(a) \o new
        IN <<"d", [i \in 1..Len(keys) |->
                    <<keys[i], Merge2(GetOr(a, keys[i], Missing),
                                      GetOr(b, keys[i], Missing), concat)>>]>>
    ELSE IF concat /\ IsSeq(a) /\ IsSeq(b) THEN <<"t", Items(a) \o Items(b)>>
    ELSE IF IsMissing(b) THEN a
    ELSE b
MergeAll(elems, concat) ==
    FoldLeft(LAMBDA acc, e : Merge2(acc, e, concat), elems[1], Tail(elems))

(* the elements and paths met on the way to a path *)
RECURSIVE SelectSteps(_, _, _)
SelectSteps(e, done, fields) ==
    <<[v |-> e, done |-> done, rest |-> fields]>> \o
    (IF fields = <<>> THEN <<>>
     ELSE LET f == fields[1]
              r == Select(e, <<f>>)
          IN IF r.ok THEN SelectSteps(r.v, Append(done, f), Tail(fields)) ELSE <<>>)

(* all containers of chosen types *)
RECURSIVE Dressed(_, _, _)
Dressed(e, map, seq) ==
    IF IsMap(e)
    THEN <<map, [i \in 1..Len(Pairs(e)) |->
                   <<Pairs(e)[i][1], Dressed(Pairs(e)[i][2], map, seq)>>]>>
    ELSE IF IsSeq(e)
    THEN <<seq, [i \in 1..Len(Items(e)) |-> Dressed(Items(e)[i], map, seq)]>>
    ELSE e

RECURSIVE HasMissing(_)
HasMissing(e) ==
    \/ IsMissing(e)
    \/ IsMap(e) /\ \E i \in 1..Len(Pairs(e)) :
                     HasMissing(Pairs(e)[i][1]) \/ HasMissing(Pairs(e)[i][2])
    \/ IsSeq(e) /\ \E i \in 1..Len(Items(e)) : HasMissing(Items(e)[i])
=============================================================================
