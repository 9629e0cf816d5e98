------------------------------ MODULE MCFresh ------------------------------
(***************************************************************************)
(* Histories of unmarshaling, marshaling and changes in place, over a heap *)
(* of containers.  A value is a number or <<"ref", n>>; container n of the *)
(* heap is a sequence of <<key, value>>: lists have the keys "1", "2", ..  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Depth, Uses

VARIABLES heap, results, owners, hist, seen
vars == <<heap, results, owners, hist, seen>>

Ref(n) == <<"ref", n>>
List(items) == [k |-> "l", at |-> [i \in 1..Len(items) |-> <<ToString(i), items[i]>>]]
Map(pairs) == [k |-> "d", at |-> pairs]
IsRef(v) == Len(v) = 2 /\ v[1] = "ref"
Num(n) == <<"n", n>>

(* the elements: [[1], [2]], {a: [1], b: [[2]]}, {a: [1], b: [2]} and {} *)
Start == << List(<<Num(1)>>), List(<<Num(2)>>), List(<<Ref(1), Ref(2)>>),
            List(<<Num(1)>>), List(<<Num(2)>>), List(<<Ref(5)>>), Map(<< <<"a", Ref(4)>>, <<"b", Ref(6)>> >>),
            List(<<Num(1)>>), List(<<Num(2)>>), Map(<< <<"a", Ref(8)>>, <<"b", Ref(9)>> >>),
            Map(<<>>) >>
Elements == [seq |-> Ref(3), map |-> Ref(7), two |-> Ref(10), none |-> Ref(11)]
ElementNames == <<"seq", "map", "two", "none">>

Child(h, v, key) == LET c == h[v[2]].at IN c[CHOOSE i \in 1..Len(c) : c[i][1] = key][2]
HasChild(h, v, key) == \E i \in 1..Len(h[v[2]].at) : h[v[2]].at[i][1] = key

(* what a type does: [v |-> value, h |-> heap], bad if the element does not fit *)
Bad == [v |-> Num(-1), h |-> <<>>]
New(h, c) == [v |-> Ref(Len(h) + 1), h |-> Append(h, c)]
RECURSIVE Make(_, _, _)
Each(t, v, h, kind) ==
    LET c == h[v[2]].at
        all == FoldLeft(LAMBDA acc, p : IF acc.h = <<>> THEN acc
                                        ELSE LET r == Make(t, p[2], acc.h)
                                             IN IF r = Bad THEN [c |-> <<>>, h |-> <<>>]
                                                ELSE [c |-> Append(acc.c, <<p[1], r.v>>), h |-> r.h],
                        [c |-> <<>>, h |-> h], c)
    IN IF all.h = <<>> THEN Bad ELSE New(all.h, [k |-> kind, at |-> all.c])
(* fields: <<name, type or default container>> *)
Fields(fs, v, h) ==
    LET names == {fs[i][1] : i \in 1..Len(fs)}
        extra == {h[v[2]].at[i][1] : i \in 1..Len(h[v[2]].at)} \ names
        all == FoldLeft(LAMBDA acc, f :
                    IF acc.h = <<>> THEN acc
                    ELSE LET r == IF HasChild(h, v, f[1]) THEN Make(f[2], Child(h, v, f[1]), acc.h)
                                  ELSE IF f[3] = <<>> THEN Bad ELSE Make(f[3], Num(0), acc.h)
                         IN IF r = Bad THEN [c |-> <<>>, h |-> <<>>]
                            ELSE [c |-> Append(acc.c, <<f[1], r.v>>), h |-> r.h],
                    [c |-> <<>>, h |-> h], fs)
    IN IF all.h = <<>> \/ extra # {} \/ h[v[2]].k # "d" THEN Bad
       ELSE New(all.h, [k |-> "d", at |-> all.c])
Make(t, v, h) ==
    CASE t[1] = "any" -> [v |-> v, h |-> h]
      [] t[1] = "int" -> IF IsRef(v) THEN Bad ELSE [v |-> v, h |-> h]
      [] t[1] = "list" -> IF ~IsRef(v) THEN Bad ELSE IF h[v[2]].k # "l" THEN Bad ELSE Each(t[2], v, h, "l")
      [] t[1] = "dict" -> IF ~IsRef(v) THEN Bad ELSE IF h[v[2]].k # "d" THEN Bad ELSE Each(t[2], v, h, "d")
      [] t[1] = "struct" -> IF ~IsRef(v) THEN Bad ELSE Fields(t[2], v, h)
      (* default factories *)
      [] t[1] = "empty" -> New(h, List(<<>>))
      [] t[1] = "five" -> LET a == New(h, List(<<Num(5)>>)) IN New(a.h, List(<<a.v>>))
      [] t[1] = "k7" -> LET a == New(h, List(<<Num(7)>>)) IN New(a.h, Map(<< <<"k", a.v>> >>))
AnyT == <<"any">>
Ints == <<"list", <<"int">> >>
Types == [nested |-> <<"list", Ints>>, loose |-> <<"list", AnyT>>, any |-> AnyT, bare |-> <<"list", AnyT>>,
          named |-> <<"dict", Ints>>, namedany |-> <<"dict", AnyT>>, maybe |-> <<"list", Ints>>,
          dflt |-> <<"dict", Ints>>,
          struct |-> <<"struct", << <<"a", Ints, <<"empty">> >>, <<"b", AnyT, <<"five">> >>,
                                    <<"c", <<"dict", Ints>>, <<"k7">> >> >> >>,
          record |-> <<"struct", << <<"a", <<"list", AnyT>>, <<>> >>, <<"b", AnyT, <<>> >> >> >>,
          keys |-> <<"struct", << <<"a", AnyT, <<>> >>, <<"b", <<"list", Ints>>, <<>> >> >> >>]

(* marshaling copies everything *)
RECURSIVE Copy(_, _)
Copy(v, h) ==
    IF ~IsRef(v) THEN [v |-> v, h |-> h]
    ELSE LET all == FoldLeft(LAMBDA acc, p : LET r == Copy(p[2], acc.h)
                                             IN [c |-> Append(acc.c, <<p[1], r.v>>), h |-> r.h],
                             [c |-> <<>>, h |-> h], h[v[2]].at)
         \* sequences of an element can not be changed
         IN New(all.h, [k |-> IF h[v[2]].k = "d" THEN "d" ELSE "t", at |-> all.c])

RECURSIVE Deep(_, _)
Deep(v, h) == IF ~IsRef(v) THEN v[2]
              ELSE LET c == h[v[2]] IN
                   IF c.k = "d" THEN [x \in {c.at[i][1] : i \in 1..Len(c.at)} |->
                                        Deep(c.at[CHOOSE i \in 1..Len(c.at) : c.at[i][1] = x][2], h)]
                   ELSE [i \in 1..Len(c.at) |-> Deep(c.at[i][2], h)]
See(rs, h) == [results |-> [i \in 1..Len(rs) |-> Deep(rs[i], h)],
               elements |-> [i \in 1..4 |-> Deep(Elements[ElementNames[i]], h)]]

RECURSIVE Reach(_, _)
Reach(v, h) == IF ~IsRef(v) THEN {}
               ELSE {v[2]} \cup UNION {Reach(h[v[2]].at[i][2], h) : i \in 1..Len(h[v[2]].at)}
RECURSIVE Paths(_, _)
Paths(v, h) == IF ~IsRef(v) THEN {}
               ELSE {<<>>} \cup UNION {{<<h[v[2]].at[i][1]>> \o p : p \in Paths(h[v[2]].at[i][2], h)}
                                       : i \in 1..Len(h[v[2]].at)}
RECURSIVE Follow(_, _, _)
Follow(v, p, h) == IF p = <<>> THEN v ELSE Follow(Child(h, v, p[1]), Tail(p), h)

Init == heap = Start /\ results = <<>> /\ owners = <<>> /\ hist = <<>> /\ seen = <<>>
Record(o) == hist' = Append(hist, o) /\ seen' = Append(seen, See(results', heap'))
Use(t, e) ==
    LET r == Make(Types[t], Elements[e], heap)
    IN /\ r # Bad
       /\ heap' = r.h /\ results' = Append(results, r.v)
       /\ owners' = Append(owners, e)
       /\ Record([op |-> "use", t |-> t, e |-> e])
Marsh(k) ==
    LET r == Copy(results[k], heap)
    IN /\ heap' = r.h /\ results' = Append(results, r.v) /\ owners' = Append(owners, "")
       /\ Record([op |-> "marshal", k |-> k])
Grow(n) == /\ heap[n].k # "t"
           /\ heap' = [heap EXCEPT ![n].at = Append(@, IF heap[n].k = "l" THEN <<ToString(Len(@) + 1), Num(9)>>
                                                       ELSE <<"z", Num(9)>>)]
           /\ UNCHANGED <<results, owners>>
(* objects and tuples are not changed themselves *)
Fixed == {"struct", "record"}
Made(k) == LET uses == SelectSeq(hist, LAMBDA o : o.op \in {"use", "marshal"}) IN uses[k]
Changed(o) == ~\E i \in 1..Len(hist) : hist[i] = o
ChangeResult(k, p) ==
    LET v == Follow(results[k], p, heap)
        o == [op |-> "change", k |-> k, p |-> p]
    IN /\ ~(p = <<>> /\ Made(k).op = "use" /\ Made(k).t \in Fixed)
       /\ ~HasChild(heap, v, "z")
       /\ Grow(v[2]) /\ Record(o)
ChangeElement(e, p) ==
    LET v == Follow(Elements[e], p, heap)
        o == [op |-> "element", e |-> e, p |-> p]
    IN ~HasChild(heap, v, "z") /\ Grow(v[2]) /\ Record(o)
Next == /\ Len(hist) < Depth
        /\ \/ /\ Len(results) < Uses
              /\ \/ \E t \in DOMAIN Types, e \in DOMAIN Elements : Use(t, e)
                 \/ \E k \in 1..Len(results) : Marsh(k)
           \/ \E k \in 1..Len(results) : \E p \in Paths(results[k], heap) : ChangeResult(k, p)
           \/ \E e \in {owners[i] : i \in 1..Len(owners)} \ {""} :
                \E p \in Paths(Elements[e], heap) : ChangeElement(e, p)
Spec == Init /\ [][Next]_vars

(* Two results share containers of the element only. *)
Fresh0 == Len(Start)
Apart == \A i, j \in 1..Len(results) :
            i # j => \A n \in Reach(results[i], heap) \cap Reach(results[j], heap) : n <= Fresh0
(* A result that hands out nothing of the element shares nothing with it. *)
Typed == \A i \in 1..Len(results) :
            (Made(i).op = "marshal" \/ (Made(i).op = "use" /\ Made(i).t \in {"nested", "named", "maybe", "dflt"}))
              => \A n \in Reach(results[i], heap) : n > Fresh0
Emit == IF Len(hist) = Depth THEN PrintT(ToJson([ops |-> hist, seen |-> seen])) ELSE TRUE
=============================================================================
