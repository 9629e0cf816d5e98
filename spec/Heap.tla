-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Elements live on: an edit produces another element and every element    *)
(* that existed before stays what it was, whatever parts the two share.    *)
(* The state is the list of the elements that exist; an edit appends one.  *)
(***************************************************************************)
EXTENDS Element

(* An edit: op, the index i of the element edited, the index j of another  *)
(* element that takes part, a path p.                                      *)
Effect(vs, o) ==
    CASE o.op = "select" -> Select(vs[o.i], o.p)
      [] o.op = "set" -> SetAt(vs[o.i], o.p, vs[o.j], FALSE)
      [] o.op = "combine" -> SetAt(vs[o.i], o.p, vs[o.j], TRUE)
      [] o.op = "remove" -> IF IsSeq(vs[o.i]) \/ IsMap(vs[o.i]) THEN DropAt(vs[o.i], o.p)
                            ELSE PathErr(<<>>)
      [] o.op = "merge" -> Done(Merge2(vs[o.i], vs[o.j], FALSE))
      [] o.op = "concat" -> Done(Merge2(vs[o.i], vs[o.j], TRUE))
      [] o.op = "standardize" -> Done(vs[o.i])
      [] o.op = "resolve" -> Done(vs[o.i])
      [] OTHER -> PathErr(<<>>)          \* uses that produce no element

(* A failed edit produces nothing; None stands in its place. *)
After(vs, o) == LET r == Effect(vs, o) IN Append(vs, IF r.ok THEN r.v ELSE None)
=============================================================================
