------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The data every other module talks about: JSON-like elements and python  *)
(* values, coded as tagged tuples so that TLC can compare any two of them. *)
(*                                                                         *)
(*   <<"N">>               None                                            *)
(*   <<"M">>               the missing value marker ("???")                *)
(*   <<"b", TRUE>>         bool                                            *)
(*   <<"i", neg, D>>       int, D = decimal digits without leading zeros   *)
(*   <<"f", neg, D, x>>    float +-D * 10^x, D without leading/trailing 0s *)
(*   <<"finf", neg>> <<"fnan">>                                            *)
(*   <<"s", C>>            str, C = sequence of one-character strings      *)
(*   <<"l", I>> <<"t", I>> list / tuple with items I                       *)
(*   <<"q", I>>            any other sequence                              *)
(*   <<"d", P>>            dict, P = sequence of <<key, value>> in order   *)
(*   <<"m", P>>            any other mapping                               *)
(* Digits are one-character strings "0".."9": python integers are unbounded*)
(* while the integers of TLC have 32 bits.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

None == <<"N">>
Missing == <<"M">>
Bool(b) == <<"b", b>>
IntV(neg, digits) == <<"i", neg, digits>>
SeqTags == {"l", "t", "q"}
MapTags == {"d", "m"}
PrimTags == {"b", "i", "f", "finf", "fnan", "s", "M"}

MissingText == <<"?", "?", "?">>

(* The marker for a missing value is a string. *)
Str(chars) == IF chars = MissingText THEN Missing ELSE <<"s", chars>>
Chars(v) == IF v = Missing THEN MissingText ELSE v[2]

Tag(v) == v[1]
IsMissing(v) == Tag(v) = "M"
IsNone(v) == Tag(v) = "N"
IsStr(v) == Tag(v) \in {"s", "M"}
IsSeq(v) == Tag(v) \in SeqTags
IsMap(v) == Tag(v) \in MapTags
IsPrim(v) == Tag(v) \in PrimTags
Items(v) == v[2]
Pairs(v) == v[2]

KeySeq(v) == [i \in 1..Len(Pairs(v)) |-> Pairs(v)[i][1]]
HasKey(v, k) == \E i \in 1..Len(Pairs(v)) : Pairs(v)[i][1] = k
KeyIndex(v, k) == CHOOSE i \in 1..Len(Pairs(v)) : Pairs(v)[i][1] = k
Get(v, k) == Pairs(v)[KeyIndex(v, k)][2]
GetOr(v, k, default) == IF HasKey(v, k) THEN Get(v, k) ELSE default

(* Assigning a key keeps its position, a new key is appended. *)
PutPairs(ps, k, x) ==
    IF \E i \in 1..Len(ps) : ps[i][1] = k
    THEN [i \in 1..Len(ps) |-> IF ps[i][1] = k THEN <<k, x>> ELSE ps[i]]
    ELSE Append(ps, <<k, x>>)
DropPairs(ps, k) == SelectSeq(ps, LAMBDA p : p[1] # k)
UpdatePairs(ps, qs) ==
    FoldLeft(LAMBDA acc, q : PutPairs(acc, q[1], q[2]), ps, qs)

IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
InSeq(s, x) == \E i \in 1..Len(s) : s[i] = x

(* Elements up to the concrete type of their containers. *)
RECURSIVE Abs(_)
Abs(v) ==
    IF IsSeq(v) THEN <<"t", [i \in 1..Len(Items(v)) |-> Abs(Items(v)[i])]>>
    ELSE IF IsMap(v)
    THEN <<"d", [i \in 1..Len(Pairs(v)) |-> <<Pairs(v)[i][1], Abs(Pairs(v)[i][2])>>]>>
    ELSE v

(* ... and up to the order of the keys of their mappings. *)
RECURSIVE SameUpToKeyOrder(_, _)
SameUpToKeyOrder(a, b) ==
    IF IsSeq(a) /\ IsSeq(b)
    THEN /\ Len(Items(a)) = Len(Items(b))
         /\ \A i \in 1..Len(Items(a)) : SameUpToKeyOrder(Items(a)[i], Items(b)[i])
    ELSE IF IsMap(a) /\ IsMap(b)
    THEN /\ Len(Pairs(a)) = Len(Pairs(b))
         /\ \A i \in 1..Len(Pairs(a)) :
              /\ HasKey(b, Pairs(a)[i][1])
              /\ SameUpToKeyOrder(Pairs(a)[i][2], Get(b, Pairs(a)[i][1]))
    ELSE a = b

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
=============================================================================
