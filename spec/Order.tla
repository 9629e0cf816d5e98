-------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* Orders by priority (marsh.utils.PriorityOrder) and registries of        *)
(* schemas kept in one.                                                    *)
(*                                                                         *)
(* An entry is [v value, p number, lo values of lower and hi values of     *)
(* higher relative priority, n how many were added before].  The state is  *)
(* [q the entries in order, n, info], info what is known of schemas:       *)
(* pairs <<name, [wrap, fits]>> with fits the types the schema matches.    *)
(* Step(s, o) is the set of allowed outcomes of a call.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Empty == [q |-> <<>>, n |-> 0, info |-> <<>>]
ToSetOf(s) == {s[i] : i \in 1..Len(s)}

Lower(a, b) == a.v \in b.lo \/ b.v \in a.hi     \* a is to come after b
Higher(a, b) == Lower(b, a)
Circular(a, b) == Lower(a, b) /\ Lower(b, a)
Related(a, b) == Lower(a, b) \/ Lower(b, a)

PutIn(q, i, e) == SubSeq(q, 1, i) \o <<e>> \o SubSeq(q, i + 1, Len(q))
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
(* values move as little as possible: the first one that nothing behind it has to precede comes next *)
RECURSIVE Repair(_)
Repair(q) ==
    IF q = <<>> THEN <<>>
    ELSE LET free == {i \in 1..Len(q) : ~\E j \in 1..Len(q) : Lower(q[i], q[j])}
             i == IF free = {} THEN 1 ELSE CHOOSE x \in free : \A y \in free : x <= y
         IN <<q[i]>> \o Repair(Drop(q, i))
(* behind everything with a higher number, but before the first with a lower relative priority *)
Place(q, e) ==
    LET stops == {i \in 1..Len(q) : Higher(e, q[i])}
        stop == IF stops = {} THEN Len(q) + 1 ELSE CHOOSE i \in stops : \A j \in stops : i <= j
        before == {i \in 1..stop - 1 : Lower(e, q[i]) \/ e.p < q[i].p}
    IN IF before = {} THEN 0 ELSE CHOOSE i \in before : \A j \in before : j <= i
Insert(q, e) ==
    LET at == Place(q, e)
        r == PutIn(q, at, e)
    IN IF \E i \in at + 1..Len(q) : Lower(e, q[i]) THEN Repair(r) ELSE r

Where(q, v) == {i \in 1..Len(q) : q[i].v = v}
Add(s, o) ==      \* the order after adding; same if refused
    LET e == [v |-> o.v, p |-> o.p, lo |-> ToSetOf(o.lo), hi |-> ToSetOf(o.hi), n |-> s.n]
        old == Where(s.q, o.v)
        rest == IF old = {} THEN s.q ELSE Drop(s.q, CHOOSE i \in old : TRUE)
        refused == \/ e.lo \cap e.hi # {} \/ e.v \in e.lo \cup e.hi
                   \/ old # {} /\ ~o.replace
                   \/ \E i \in 1..Len(rest) : Circular(e, rest[i])
    IN IF refused THEN [ok |-> FALSE, s |-> s]
       ELSE [ok |-> TRUE, s |-> [s EXCEPT !.q = Insert(rest, e), !.n = @ + 1]]
ByAge(q) == SortSeq(q, LAMBDA a, b : a.n < b.n)
Delete(s, from, to) ==     \* entries from..to are removed
    LET out == SubSeq(s.q, from, to)
        rest == SubSeq(s.q, 1, from - 1) \o SubSeq(s.q, to + 1, Len(s.q))
        again == \E i \in 1..Len(out) : \E j \in 1..Len(rest) : Related(out[i], rest[j])
    IN [s EXCEPT !.q = IF again THEN FoldLeft(Insert, <<>>, ByAge(rest)) ELSE rest]
Names(s) == [i \in 1..Len(s.q) |-> s.q[i].v]

(* the schemas used for a type: wrappers that match it up to the first other schema that does;
   what comes with the package can use h0, a class with a t0 inside, only if t0 can be used *)
Info(s, v) == s.info[CHOOSE i \in 1..Len(s.info) : s.info[i][1] = v][2]
RECURSIVE Chain(_, _)
Chain(s, tok) ==
    LET fits == SelectSeq(Names(s), LAMBDA v : \E i \in 1..Len(Info(s, v).fits) : Info(s, v).fits[i] = tok)
        ends == {i \in 1..Len(fits) : ~Info(s, fits[i]).wrap}
        c == SubSeq(fits, 1, CHOOSE i \in ends : \A j \in ends : i <= j)
    IN IF ends = {} THEN <<>>
       ELSE IF tok = "h0" /\ c[Len(c)] = "builtin" /\ Chain(s, "t0") = <<>> THEN <<>>
       ELSE c

One(s, out) == { [s |-> s, out |-> out] }
(* A use names a context and the types in it; a union gives what its first does, but all of them have to exist. *)
Used(s, o) ==
    LET chains == [i \in 1..Len(o.toks) |-> Chain(s, o.toks[i])]
    IN IF \E i \in 1..Len(chains) : chains[i] = <<>> THEN <<"UnmarshalError">>
       ELSE <<"ok", IF o.how = "union" THEN <<chains[1]>> ELSE chains>>
Step(s, o) ==
    CASE o.op = "add" ->
           LET r == Add(s, o)
               info == IF ~r.ok \/ "wrap" \notin DOMAIN o THEN s.info
                       ELSE <<<<o.v, [wrap |-> o.wrap, fits |-> o.fits]>>>>
                            \o SelectSeq(s.info, LAMBDA x : x[1] # o.v)
           IN One([r.s EXCEPT !.info = info], IF r.ok THEN <<"ok">> ELSE <<"ValueError">>)
      [] o.op = "del" -> One(Delete(s, o.from, o.to), <<"ok">>)
      [] o.op = "list" -> One(s, <<"names", Names(s)>>)
      [] o.op = "slice" -> One(s, <<"names", SubSeq(Names(s), o.from, o.to)>>)
      [] o.op = "index" -> One(s, IF Where(s.q, o.v) = {} THEN <<"ValueError">>
                                  ELSE <<"n", CHOOSE i \in Where(s.q, o.v) : TRUE>>)
      [] OTHER -> One(s, Used(s, o))

(* Laws *)
Distinct(s) == \A i, j \in 1..Len(s.q) : s.q[i].v = s.q[j].v => i = j
Unrelated(q) == \A i, j \in 1..Len(q) : i # j => ~Related(q[i], q[j])
ByNumber(s) ==      \* without relations: by number, then the newest first
    Unrelated(s.q) => \A i, j \in 1..Len(s.q) :
        i < j => (s.q[i].p > s.q[j].p \/ (s.q[i].p = s.q[j].p /\ s.q[i].n > s.q[j].n))
RECURSIVE Peel(_)
Peel(q) ==      \* what is left when everything that nothing has to precede is taken away
    LET rest == SelectSeq(q, LAMBDA e : \E i \in 1..Len(q) : Lower(e, q[i]))
    IN IF rest = q THEN q ELSE Peel(rest)
ByRelation(s) ==
    Peel(s.q) = <<>> => \A i, j \in 1..Len(s.q) : i < j => ~Lower(s.q[i], s.q[j])
=============================================================================
