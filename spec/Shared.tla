-------------------------------- MODULE Shared -------------------------------
(***************************************************************************)
(* One iterator shared by many iterations (marsh.utils.IterableFromIterator).*)
(* items: what the source will give; "!" means that drawing raises.        *)
(* State: [got |-> items drawn so far that were given, at |-> the position *)
(* of the source, draws |-> number of draws, c |-> the iterations: number  *)
(* of items given or -1 if ended].                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Fresh(items) == [items |-> items, got |-> <<>>, at |-> 0, c |-> <<>>]
One(s, out) == { [s |-> s, out |-> out] }

(* drawing the next item: [s, k |-> "item" | "raise" | "end"] *)
Draw(s) ==
    IF s.at >= Len(s.items) THEN [s |-> s, k |-> "end"]
    ELSE IF s.items[s.at + 1] = "!" THEN [s |-> [s EXCEPT !.at = @ + 1], k |-> "raise"]
    ELSE [s |-> [s EXCEPT !.at = @ + 1, !.got = Append(@, s.items[s.at + 1])], k |-> "item"]
(* out: what is seen, and how many items have been drawn so far *)
Seen(s, x) == <<x, s.at>>
Advance(s, n) ==
    LET have == s.c[n]
    IN IF have = -1 THEN One(s, Seen(s, "end"))
       ELSE IF have < Len(s.got)
       THEN One([s EXCEPT !.c[n] = @ + 1], Seen(s, s.got[have + 1]))
       ELSE LET d == Draw(s) IN
            IF d.k = "item" THEN One([d.s EXCEPT !.c[n] = @ + 1], Seen(d.s, d.s.got[have + 1]))
            ELSE One([d.s EXCEPT !.c[n] = -1], Seen(d.s, IF d.k = "end" THEN "end" ELSE "raise"))
(* n items in one go, from a source that does not fail *)
Least(x, y) == IF x <= y THEN x ELSE y
Most(x, y) == IF x >= y THEN x ELSE y
Take(s, n, count) ==
    LET have == IF s.c[n] = -1 THEN Len(s.items) ELSE s.c[n]
        total == Least(have + count, Len(s.items))
        at == Most(s.at, total)
    IN One([s EXCEPT !.at = at, !.got = SubSeq(s.items, 1, at), !.c[n] = IF have + count > Len(s.items) THEN -1 ELSE total],
           <<SubSeq(s.items, have + 1, total), at>>)
Step(s, o) ==
    CASE o.op = "take" -> Take(s, o.c, o.n)
      [] o.op = "new" -> One([s EXCEPT !.c = Append(@, 0)], Seen(s, "ok"))
      [] o.op = "next" -> Advance(s, o.c)
      [] o.op = "bool" ->
           IF s.got # <<>> THEN One(s, Seen(s, "true"))
           ELSE LET d == Draw(s) IN
                One(d.s, Seen(d.s, IF d.k = "item" THEN "true" ELSE IF d.k = "end" THEN "false"
                                   ELSE "raise"))
(* -- laws ---------------------------------------------------------------- *)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Good(s) == SelectSeq(s.items, LAMBDA x : x # "!")
InOrder(s) == Prefix(s.got, Good(s))
(* a full iteration by any number of threads, without failing draws *)
Concurrent(items, seen, draws) ==
    /\ \A t \in 1..Len(seen) : seen[t] = items
    /\ draws = Len(items)
=============================================================================
