--------------------------------- MODULE Lru ---------------------------------
(***************************************************************************)
(* Functions cached with marsh.utils.cache, and pools of them.             *)
(*                                                                         *)
(* The functions are numbered; s.f[n] is the cache of one:                 *)
(*   [m |-> entries <<arguments, result>>, least recently used first,      *)
(*    on, hits, misses, max (-1: unbounded), typed, safe, bind]            *)
(* An argument list is [a |-> positional, k |-> <<name, argument>> pairs]; *)
(* an argument is [c |-> equality class, y |-> type, h |-> hashable].      *)
(* Every evaluation of a function gives its running number s.runs (so a    *)
(* result tells which evaluation it is from) unless the arguments ask for  *)
(* an exception.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* the arguments that count: with bind = "ignore" not the first *)
Key(f, o) == [a |-> IF f.bind = "ignore" THEN Tail(o.a) ELSE o.a, k |-> o.k]
Equal(typed, x, y) == x.c = y.c /\ (typed => x.y = y.y)
(* Python itself may keep equal arguments of different types apart, and   *)
(* keyword arguments given in another order.                               *)
Surely(x, y) == x = y
SameArgs(f, x, y) ==
    /\ Len(x.a) = Len(y.a) /\ Len(x.k) = Len(y.k)
    /\ \A i \in 1..Len(x.a) : Equal(f.typed, x.a[i], y.a[i])
    /\ \A i \in 1..Len(x.k) : \E j \in 1..Len(y.k) :
         x.k[i][1] = y.k[j][1] /\ Equal(f.typed, x.k[i][2], y.k[j][2])
Hashable(x) == (\A i \in 1..Len(x.a) : x.a[i].h) /\ (\A i \in 1..Len(x.k) : x.k[i][2].h)

Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
(* what an evaluation gives: a number, or an exception *)
Raises(o) == o.raise
Gives(s, o) == IF o.raise # "" THEN <<o.raise>> ELSE <<"v", s.runs + 1>>
Keep(f, x, v) ==
    LET q == Append(f.m, <<x, v>>)
    IN [f EXCEPT !.misses = @ + 1,
                 !.m = IF f.max = 0 THEN <<>>
                       ELSE IF f.max > 0 /\ Len(q) > f.max THEN Tail(q) ELSE q]

(* out: what the caller gets, and how often the function was run meanwhile *)
Out(res, runs) == <<res, runs>>
(* with safe, a type error looks like arguments that can not be hashed *)
Times(f, o) == IF f.safe /\ o.raise = "TypeError" THEN {1, 2} ELSE {1}
Bypass(s, o) == { [s |-> [s EXCEPT !.runs = @ + n], out |-> Out(Gives(s, o), n)]
                  : n \in Times(s.f[o.f], o) }
Call(s, o) ==
    LET f == s.f[o.f]
        x == Key(f, o)
        sure == \E i \in 1..Len(f.m) : Surely(f.m[i][1], x)
        hits == { [s |-> [s EXCEPT !.f[o.f] =
                            [f EXCEPT !.hits = @ + 1,
                                      !.m = Append(Drop(f.m, i), f.m[i])]],
                   out |-> Out(<<"v", f.m[i][2]>>, 0)]
                  : i \in { j \in 1..Len(f.m) : SameArgs(f, f.m[j][1], x) } }
        runs == IF o.raise = "" THEN
                    { [s |-> [s EXCEPT !.runs = @ + 1, !.f[o.f] = Keep(f, x, s.runs + 1)],
                       out |-> Out(Gives(s, o), 1)] }
                ELSE \* nothing is kept
                    { [s |-> [s EXCEPT !.runs = @ + n, !.f[o.f].misses = @ + 1],
                       out |-> Out(<<o.raise>>, n)]
                      : n \in Times(f, o) }
    IN IF ~f.on THEN Bypass(s, o)
       ELSE IF ~Hashable(x)
       THEN (IF f.safe THEN Bypass(s, o) ELSE { [s |-> s, out |-> Out(<<"TypeError">>, 0)] })
            \cup (IF f.max = 0 THEN runs ELSE {})       \* nothing to look up
       ELSE IF sure THEN { r \in hits : \E i \in 1..Len(f.m) :
                             Surely(f.m[i][1], x) /\ r.out = Out(<<"v", f.m[i][2]>>, 0) }
       ELSE hits \cup runs

(* many calls, each with one plain argument that was never given before *)
LastOf(q, n) == IF n < 0 \/ Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
Fill(s, o) ==
    LET f == s.f[o.f]
        n == o.b - o.a + 1
        new == [i \in 1..n |-> << [a |-> <<[c |-> o.a + i - 1, y |-> 1, h |-> TRUE]>>, k |-> <<>>],
                                  s.runs + i >>]
        kept == [f EXCEPT !.misses = @ + n, !.m = LastOf(@ \o new, f.max)]
    IN { [s |-> [s EXCEPT !.runs = @ + n, !.f[o.f] = IF f.on THEN kept ELSE f],
          out |-> Out([i \in 1..n |-> <<"v", s.runs + i>>], n)] }

Cleared(f) == [f EXCEPT !.m = <<>>, !.hits = 0, !.misses = 0]
All(s, Do(_)) == [s EXCEPT !.f = [n \in 1..Len(@) |-> Do(@[n])]]
Info(f) == <<f.hits, f.misses, f.max, Len(f.m)>>
Ok(s) == { [s |-> s, out |-> Out(<<"ok">>, 0)] }
Switch(f, on) == [f EXCEPT !.on = on]
Step(s, o) ==
    CASE o.op = "call" -> Call(s, o)
      [] o.op = "fill" -> Fill(s, o)
      [] o.op = "clear" -> Ok([s EXCEPT !.f[o.f] = Cleared(@)])
      [] o.op = "off" -> Ok([s EXCEPT !.f[o.f] = Switch(@, FALSE)])
      [] o.op = "on" -> Ok([s EXCEPT !.f[o.f] = Switch(@, TRUE)])
      [] o.op = "info" -> { [s |-> s, out |-> Out(<<"info", Info(s.f[o.f])>>, 0)] }
      [] o.op = "pool.clear" -> Ok(All(s, Cleared))
      [] o.op = "pool.off" -> Ok(All(s, LAMBDA f : Switch(f, FALSE)))
      [] o.op = "pool.on" -> Ok(All(s, LAMBDA f : Switch(f, TRUE)))
      [] o.op = "pool.info" ->
           { [s |-> s, out |-> Out(<<"info", [n \in 1..Len(s.f) |-> Info(s.f[n])]>>, 0)] }
      [] o.op = "forget" ->     \* nobody but the caches could still hold the object
           { [s |-> s, out |-> Out(<<"gone">>, 0)] }

FreshCache(c) == [m |-> <<>>, on |-> TRUE, hits |-> 0, misses |-> 0,
                  max |-> c.max, typed |-> c.typed, safe |-> c.safe, bind |-> c.bind]
Start(cs) == [f |-> [n \in 1..Len(cs) |-> FreshCache(cs[n])], runs |-> 0]

(* -- laws ---------------------------------------------------------------- *)
Bounded(s) == \A n \in 1..Len(s.f) : s.f[n].max >= 0 => Len(s.f[n].m) <= s.f[n].max
OneEach(s) == \A n \in 1..Len(s.f) : \A i, j \in 1..Len(s.f[n].m) :
                 s.f[n].m[i][1] = s.f[n].m[j][1] => i = j
=============================================================================
