------------------------------ MODULE WeakTypes ------------------------------
(***************************************************************************)
(* Collections of types that do not keep them alive                        *)
(* (marsh.utils.WeakTypeCache).  order: the types in it, the latest first;  *)
(* adding one again makes it the latest; those to skip and aliases such as  *)
(* List[int] are never in it; a type that is gone is gone from it.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

FreshTypes == [order |-> <<>>]
WithoutType(s, i) == [s EXCEPT !.order = SelectSeq(@, LAMBDA j : j # i)]
InTypes(s, i) == \E n \in 1..Len(s.order) : s.order[n] = i
Same1(s, out) == { [s |-> s, out |-> out] }
TypesStep(s, o) ==
    CASE o.op = "add" -> Same1([s EXCEPT !.order = <<o.i>> \o WithoutType(s, o.i).order], <<"ok">>)
      [] o.op \in {"skip", "alias"} -> Same1(s, <<"ok">>)
      [] o.op = "gone" -> Same1(WithoutType(s, o.i), <<"ok">>)
      [] o.op = "clear" -> Same1([s EXCEPT !.order = <<>>], <<"ok">>)
      [] o.op = "has" -> Same1(s, <<"b", InTypes(s, o.i)>>)
      [] o.op = "len" -> Same1(s, <<"n", Len(s.order)>>)
      [] o.op = "all" -> Same1(s, <<"types", s.order>>)
      [] o.op = "part" ->       \* an iteration given up after some
           Same1(s, <<"types", SubSeq(s.order, 1, IF o.n < Len(s.order) THEN o.n ELSE Len(s.order))>>)

(* -- laws ---------------------------------------------------------------- *)
EachOnce(s) == \A m, n \in 1..Len(s.order) : s.order[m] = s.order[n] => m = n
=============================================================================
