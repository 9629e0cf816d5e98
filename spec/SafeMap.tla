------------------------------- MODULE SafeMap -------------------------------
(***************************************************************************)
(* Ordered dictionaries that take any key (marsh.utils.SafeDict) and value *)
(* caches built on them (marsh.utils.ValueCache).                          *)
(*                                                                         *)
(* A key is [c |-> its equality class, h |-> can it be hashed, y |-> its    *)
(* type].  The state is [m |-> the items in order, typed, on, hits, misses]*)
(* (the last three only matter for caches).  Step(s, o) is the set of      *)
(* allowed outcomes [s |-> next state, out |-> what the caller sees].      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Fresh(typed) == [m |-> <<>>, typed |-> typed, on |-> TRUE, hits |-> 0, misses |-> 0]

Same(s, k, l) == k.c = l.c /\ k.h = l.h /\ (s.typed => k.y = l.y)
At(s, k) == { i \in 1..Len(s.m) : Same(s, s.m[i][1], k) }
In(s, k) == At(s, k) # {}
Find(s, k) == CHOOSE i \in At(s, k) : TRUE
Without(s, i) == [s EXCEPT !.m = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
Put(s, k, v) == IF In(s, k) THEN [s EXCEPT !.m[Find(s, k)] = <<@[1], v>>]
                ELSE [s EXCEPT !.m = Append(@, <<k, v>>)]
RECURSIVE PutAll(_, _)
PutAll(s, ps) == IF ps = <<>> THEN s ELSE PutAll(Put(s, ps[1][1], ps[1][2]), Tail(ps))

Flip(seq) == [i \in 1..Len(seq) |-> seq[Len(seq) + 1 - i]]
Seen(k) == <<k.c, k.h>>
Keys(s) == [i \in 1..Len(s.m) |-> Seen(s.m[i][1])]
Values(s) == [i \in 1..Len(s.m) |-> s.m[i][2]]
Items(s) == [i \in 1..Len(s.m) |-> <<Seen(s.m[i][1]), s.m[i][2]>>]

One(s, out) == { [s |-> s, out |-> out] }
None == <<"KeyError">>
Val(s, k) == <<"v", s.m[Find(s, k)][2]>>

(* many plain keys at once: the classes from a to b, each with the value v *)
Fill(s, a, b, v) ==
    LET had == { s.m[i][1].c : i \in 1..Len(s.m) }
        new == SelectSeq([i \in 1..(b - a + 1) |-> a + i - 1], LAMBDA c : c \notin had)
    IN [s EXCEPT !.m = [i \in 1..Len(@) |-> IF @[i][1].c \in a..b THEN <<@[i][1], v>> ELSE @[i]]
                       \o [i \in 1..Len(new) |-> <<[c |-> new[i], h |-> TRUE, y |-> 1], v>>]]

Step(s, o) ==
    CASE o.op = "fill" -> One(IF s.on THEN Fill(s, o.a, o.b, o.v) ELSE s, <<"ok">>)
      [] o.op = "set" -> One(IF s.on THEN Put(s, o.k, o.v) ELSE s, <<"ok">>)
      [] o.op = "get" ->        \* of a dictionary
           One(s, IF In(s, o.k) THEN Val(s, o.k) ELSE None)
      [] o.op = "look" ->       \* of a cache
           IF ~s.on THEN One(s, None)
           ELSE IF In(s, o.k) THEN One([s EXCEPT !.hits = @ + 1], Val(s, o.k))
           ELSE One([s EXCEPT !.misses = @ + 1], None)
      [] o.op = "del" -> IF In(s, o.k) THEN One(Without(s, Find(s, o.k)), <<"ok">>)
                         ELSE One(s, None)
      [] o.op = "has" -> One(s, <<"b", In(s, o.k)>>)
      [] o.op = "getd" -> One(s, IF In(s, o.k) THEN Val(s, o.k) ELSE <<"v", o.v>>)
      [] o.op = "pop" -> IF In(s, o.k) THEN One(Without(s, Find(s, o.k)), Val(s, o.k))
                         ELSE One(s, None)
      [] o.op = "popd" -> IF In(s, o.k) THEN One(Without(s, Find(s, o.k)), Val(s, o.k))
                          ELSE One(s, <<"v", o.v>>)
      [] o.op = "setdefault" -> IF In(s, o.k) THEN One(s, Val(s, o.k))
                                ELSE One(Put(s, o.k, o.v), <<"v", o.v>>)
      [] o.op = "update" -> One(PutAll(s, o.ps), <<"ok">>)
      [] o.op = "touch" ->      \* every value is replaced while iterating
           One([s EXCEPT !.m = [i \in 1..Len(@) |-> <<@[i][1], o.v>>]], <<"keys", Keys(s)>>)
      [] o.op = "popitem" ->    \* from either end
           IF s.m = <<>> THEN One(s, None)
           ELSE UNION { One(Without(s, i), <<"item", Items(s)[i]>>) : i \in {1, Len(s.m)} }
      [] o.op = "clear" -> One([s EXCEPT !.m = <<>>, !.hits = 0, !.misses = 0], <<"ok">>)
      [] o.op = "keys" -> One(s, <<"keys", Keys(s)>>)
      [] o.op = "rev" -> One(s, <<"keys", Flip(Keys(s))>>)
      [] o.op = "values" -> One(s, <<"values", Values(s)>>)
      [] o.op = "items" -> One(s, <<"items", Items(s)>>)
      [] o.op = "len" -> One(s, <<"n", Len(s.m)>>)
      [] o.op = "info" -> One(s, <<"info", s.hits, s.misses, Len(s.m)>>)
      [] o.op = "off" -> One([s EXCEPT !.on = FALSE], <<"ok">>)
      [] o.op = "on" -> One([s EXCEPT !.on = TRUE], <<"ok">>)

(* -- laws ---------------------------------------------------------------- *)
Distinct(s) == \A i, j \in 1..Len(s.m) : Same(s, s.m[i][1], s.m[j][1]) => i = j
=============================================================================
