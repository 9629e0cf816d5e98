-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* Pools of named value caches (marsh.utils.CachePool).  A pool is a        *)
(* read-only mapping of names to caches: a name stands for the cache added  *)
(* last under it, names stay where they first came.  Clearing, disabling    *)
(* and enabling a pool does so to every cache that has a name; a cache      *)
(* whose name went to another one lives on by itself.                       *)
(*   caches  all caches ever made, as states of SafeMap                     *)
(*   names   << <<name, number of a cache>>, ... >>                         *)
(***************************************************************************)
EXTENDS SafeMap

FreshPool == [caches |-> <<>>, names |-> <<>>]
NamedAt(p, n) == { i \in 1..Len(p.names) : p.names[i][1] = n }
CacheOf(p, n) == p.names[CHOOSE i \in NamedAt(p, n) : TRUE][2]
Bound(p) == { p.names[i][2] : i \in 1..Len(p.names) }
Give(p, n, c) ==
    IF NamedAt(p, n) = {} THEN [p EXCEPT !.names = Append(@, <<n, c>>)]
    ELSE [p EXCEPT !.names[CHOOSE i \in NamedAt(p, n) : TRUE] = <<n, c>>]
(* what is done to a cache does not depend on what it gives *)
Do1(s, o) == (CHOOSE r \in Step(s, o) : TRUE).s
OnAll(p, o) == [p EXCEPT !.caches = [c \in 1..Len(@) |-> IF c \in Bound(p) THEN Do1(@[c], o) ELSE @[c]]]

PoolStep(p, o) ==
    CASE o.op = "new" ->    \* a new cache, which has the next number
           One(Give([p EXCEPT !.caches = Append(@, Fresh(FALSE))], o.n, Len(p.caches) + 1), <<"ok">>)
      [] o.op = "give" -> One(Give(p, o.n, o.c), <<"ok">>)
      [] o.op = "at" -> { [s |-> [p EXCEPT !.caches[o.c] = r.s], out |-> r.out] : r \in Step(p.caches[o.c], o.o) }
      [] o.op = "all" -> One(OnAll(p, [op |-> o.what]), <<"ok">>)
      [] o.op = "which" -> One(p, IF NamedAt(p, o.n) = {} THEN None ELSE <<"cache", CacheOf(p, o.n)>>)
      [] o.op = "known" -> One(p, <<"b", NamedAt(p, o.n) # {}>>)
      [] o.op = "names" -> One(p, <<"names", [i \in 1..Len(p.names) |-> p.names[i]]>>)
      [] o.op = "count" -> One(p, <<"n", Len(p.names)>>)
      [] o.op = "infos" ->
           One(p, <<"infos", [i \in 1..Len(p.names) |->
                LET s == p.caches[p.names[i][2]] IN <<p.names[i][1], s.hits, s.misses, Len(s.m)>>]>>)

(* -- laws ---------------------------------------------------------------- *)
OneName(p) == \A i, j \in 1..Len(p.names) : p.names[i][1] = p.names[j][1] => i = j
(* what is disabled is not written to, what is cleared is empty *)
Cleared(p) == LET q == OnAll(p, [op |-> "clear"]) IN \A c \in Bound(p) : q.caches[c].m = <<>>
Alone(p, q) == \A c \in 1..Len(p.caches) : c \notin Bound(p) => q.caches[c] = p.caches[c]
=============================================================================
