------------------------------ MODULE JudgeText ------------------------------
(* Judges recorded readings and writings of texts. *)
EXTENDS ParseText, Judge

NonEmpty(fs) == SelectSeq(fs, LAMBDA f : f # <<>>)
Denotes(t, d, fields) == Split(t, d) = [ok |-> TRUE, fields |-> fields]
FieldsOf(v) == [i \in 1..Len(v) |-> v[i]]

(* operations on path texts: ev.p text, ev.d delimiter, ev.f field(s) *)
PathHolds(ev) ==
    LET s == Split(ev.p, ev.d) IN
    CASE ev.op = "split" ->
           IF s.ok THEN ev.out.k = "ok" /\ ev.out.v = s.fields ELSE ev.out.k = "path"
      [] ev.op = "join" -> ev.out.k = "ok" /\ Denotes(ev.out.v, ev.d, NonEmpty(ev.f))
      [] ev.op = "escape" -> ev.out.k = "ok" /\ Denotes(ev.out.v, ev.d, NonEmpty(<<ev.f>>))
      [] ev.op = "prepend" ->
           s.ok => ev.out.k = "ok" /\ Denotes(ev.out.v, ev.d, NonEmpty(<<ev.f>>) \o s.fields)
      [] ev.op = "append" ->
           s.ok => ev.out.k = "ok" /\ Denotes(ev.out.v, ev.d, s.fields \o NonEmpty(<<ev.f>>))
      [] ev.op = "head" ->
           IF ~s.ok THEN ev.out.k = "path"
           ELSE /\ ev.out.k = "ok"
                /\ ev.out.v[1] = (IF s.fields = <<>> THEN <<>> ELSE s.fields[1])
                /\ Denotes(ev.out.v[2], ev.d, IF s.fields = <<>> THEN <<>> ELSE Tail(s.fields))
      [] ev.op = "tail" ->
           IF ~s.ok THEN ev.out.k = "path"
           ELSE LET n == Len(s.fields) IN
                /\ ev.out.k = "ok"
                /\ ev.out.v[1] = (IF n = 0 THEN <<>> ELSE s.fields[n])
                /\ Denotes(ev.out.v[2], ev.d, IF n = 0 THEN <<>> ELSE SubSeq(s.fields, 1, n - 1))
      [] ev.op = "strip" -> s.ok => ev.out.k = "ok" /\ Denotes(ev.out.v, ev.d, s.fields)

(* operations on element texts: ev.t *)
Same(out, r) == IF r.ok THEN out.k = "ok" /\ out.v = r.v ELSE out.k = "parse"
OverrideIs(out, o) ==
    IF ~o.ok THEN out.k = "parse"
    ELSE /\ out.k = "ok"
         /\ out.v.kind = o.kind /\ out.v.combine = o.combine /\ out.v.v = o.v
         /\ Split(out.v.path, Dot) = Split(o.path, Dot)
TextHolds(ev) ==
    CASE ev.op = "element" -> Same(ev.out, ParseElement(ev.t))
      [] ev.op = "terminal" -> Same(ev.out, LET r == Terminal(ev.t, 1, {}) IN r)
      [] ev.op = "names" -> Same(ev.out, LET r == ParseNames(ev.t)
                                         IN IF r.ok THEN [ok |-> TRUE, v |-> <<"t", r.v>>] ELSE No)
      [] ev.op = "written" ->     \* ev.t was written for the element ev.e
           LET r == ParseElement(ev.t)
           IN r.ok /\ r.v = ev.e /\ ev.out.k = "ok" /\ ev.out.v = ev.e
      [] ev.op = "override" -> OverrideIs(ev.out, ParseOverride(ev.t))
      [] ev.op = "fold" ->
           LET r == Fold(ev.e, ev.ts)
           IN IF r.k = "ok" THEN ev.out.k = "ok" /\ ev.out.v = r.v ELSE ev.out.k = r.k

PathOps == {"split", "join", "escape", "prepend", "append", "head", "tail", "strip"}
Holds(ev) == IF ev.op \in PathOps THEN PathHolds(ev) ELSE TextHolds(ev)
Want(ev) ==
    CASE ev.op \in PathOps -> ToString(Split(ev.p, ev.d))
      [] ev.op = "names" -> ToString(ParseNames(ev.t))
      [] ev.op \in {"element", "written", "terminal"} -> ToString(ParseElement(ev.t))
      [] ev.op = "override" -> ToString(ParseOverride(ev.t))
      [] OTHER -> ToString(Fold(ev.e, ev.ts))
Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
