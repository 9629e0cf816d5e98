------------------------------- MODULE Fresh -------------------------------
(***************************************************************************)
(* Which containers of a result are new.  The codes of containers may end  *)
(* with a label: the container of the element, the declared default or the *)
(* value with that label.  A container without label is one that only the  *)
(* result knows.  The specification of unmarshaling builds containers      *)
(* without label and hands out those of the element only where it hands    *)
(* out the element itself; so what it gives for labelled elements says     *)
(* which containers may be shared.                                         *)
(***************************************************************************)
EXTENDS Marshal

Label(v, n) == SubSeq(v, n + 1, Len(v))
RECURSIVE Marked(_)
MarkedSeq(s) == [i \in 1..Len(s) |-> Marked(s[i])]
MarkedPairs(ps) == [i \in 1..Len(ps) |-> <<ps[i][1], Marked(ps[i][2])>>]
Marked(v) ==
    CASE Tag(v) \in {"l", "t", "q", "dq"} -> <<Tag(v), MarkedSeq(v[2]), Label(v, 2)>>
      [] Tag(v) \in {"d", "m", "mp", "od"} -> <<Tag(v), MarkedPairs(v[2]), Label(v, 2)>>
      [] Tag(v) = "dd" -> <<"dd", MarkedPairs(v[2]),
                            IF v[3][1] = "ok" THEN <<"ok", Marked(v[3][2])>> ELSE <<"err">>, Label(v, 3)>>
      [] Tag(v) = "set" -> <<"set", {Norm(v[2][i]) : i \in 1..Len(v[2])}, Label(v, 2)>>
      [] Tag(v) = "nt" -> <<"nt", v[2], MarkedPairs(v[3])>>
      [] Tag(v) = "o" -> <<"o", v[2], MarkedPairs(v[3]), Label(v, 3)>>
      [] OTHER -> v

(* A default that is an object may be handed out itself, or a copy of it. *)
RECURSIVE Fits(_, _)
FitsPairs(ps, qs) == /\ Len(ps) = Len(qs)
                     /\ \A i \in 1..Len(ps) : ps[i][1] = qs[i][1] /\ Fits(ps[i][2], qs[i][2])
FitsSeq(s, u) == Len(s) = Len(u) /\ \A i \in 1..Len(s) : Fits(s[i], u[i])
FitsLabel(l, m) == l = m \/ (l = <<>> /\ m # <<>> /\ m[1][1] = "d")
Fits(v, w) ==     \* v: seen, w: specified, both marked
    /\ Tag(v) = Tag(w)
    /\ CASE Tag(v) \in {"l", "t", "q", "dq"} -> FitsSeq(v[2], w[2]) /\ FitsLabel(v[3], w[3])
         [] Tag(v) \in {"d", "m", "mp", "od"} -> FitsPairs(v[2], w[2]) /\ FitsLabel(v[3], w[3])
         [] Tag(v) = "dd" -> /\ FitsPairs(v[2], w[2]) /\ FitsLabel(v[4], w[4]) /\ v[3][1] = w[3][1]
                             /\ v[3][1] = "ok" => Fits(v[3][2], w[3][2])
         [] Tag(v) = "set" -> v[2] = w[2] /\ FitsLabel(v[3], w[3])
         [] Tag(v) = "nt" -> v[2] = w[2] /\ FitsPairs(v[3], w[3])
         [] Tag(v) = "o" -> v[2] = w[2] /\ FitsPairs(v[3], w[3]) /\ FitsLabel(v[4], w[4])
         [] OTHER -> v = w
(* no container of the value is known from before *)
RECURSIVE AllNew(_)
AllNew(v) ==
    CASE Tag(v) = "t" -> \A i \in 1..Len(v[2]) : AllNew(v[2][i])
      [] Tag(v) \in {"l", "q", "dq"} -> Len(v) = 2 /\ \A i \in 1..Len(v[2]) : AllNew(v[2][i])
      [] Tag(v) \in {"d", "m", "mp", "od"} -> Len(v) = 2 /\ \A i \in 1..Len(v[2]) : AllNew(v[2][i][2])
      [] OTHER -> TRUE
IsFresh(seen, wanted) == Fits(Marked(seen), Marked(wanted))
=============================================================================
