------------------------------ MODULE JudgeDoc ------------------------------
(* Judges recorded documentation of types, paths into them and help of programs. *)
EXTENDS Doc, Judge

(* a recursive type itself is documented in full *)
Top(t, env) == IF t[1] = "ref" THEN EnvType(env, t[2]) ELSE t
AtIs(text, fields) == Split(text, Dot) = [ok |-> TRUE, fields |-> fields]

SelectWell(ev) ==
    LET r == SelectType(ev.t, ev.path, ev.env)
    IN IF ~r.ok THEN ev.out.k = "path" /\ AtIs(ev.out.at, r.at)
       ELSE /\ ev.out.k = "ok"
            /\ IsDoc(ev.out.doc, r.t, FieldDefault(r.f), ev.depth, ev.env)
            (* it is the type at the path: it makes the values of that type *)
            /\ \A i \in 1..Len(ev.uses) :
                LET u == ev.uses[i]
                    w == UM(r.t, u.e, <<>>, ev.env)
                IN u.out.k = "skip"
                   \/ (IF w.ok THEN u.out.k = "ok" /\ Norm(u.out.v) = Norm(w.v)
                       ELSE u.out.k = (IF w.miss THEN "missing" ELSE "unmarshal"))

HelpWell(ev) ==
    IF ev.path = <<>>
    THEN /\ ev.code = 0
         /\ IsSiteDoc(ev.doc, ev.t, ev.depth, ev.env, ev.ca, ev.ck)
         /\ AreLines(ev.lines, Lines(ev.doc, <<>>, 0, ev.depth))
    ELSE LET r == SelectType(ev.t, ev.path, ev.env)
         IN IF ~r.ok THEN ev.code = 1 /\ ev.lines = <<>>
            ELSE /\ ev.code = 0
                 /\ IsDoc(ev.doc, r.t, FieldDefault(r.f), ev.depth, ev.env)
                 /\ AreLines(ev.lines, Lines(ev.doc, <<>>, 0, ev.depth))

Holds(ev) ==
    CASE ev.op = "doc" -> IF ev.ca = <<>> /\ ev.ck = <<>> THEN IsDoc(ev.doc, Top(ev.t, ev.env), <<>>, ev.depth, ev.env)
                          ELSE IsSiteDoc(ev.doc, ev.t, ev.depth, ev.env, ev.ca, ev.ck)
      [] ev.op = "select" -> SelectWell(ev)
      [] ev.op = "lines" -> AreLines(ev.lines, Lines(ev.doc, Split(ev.prefix, Dot).fields, 0, ev.depth))
      [] OTHER -> HelpWell(ev)

Want(ev) == ToString(
    CASE ev.op = "doc" -> IF ev.ca = <<>> /\ ev.ck = <<>> THEN DocOf(ev.t, <<>>, ev.depth, ev.env, FALSE)
                          ELSE [ds |-> SiteDefaults(FieldsOf(ev.t), ev.ca, ev.ck)]
      [] ev.op = "lines" -> Lines(ev.doc, Split(ev.prefix, Dot).fields, 0, ev.depth)
      [] OTHER -> [sel |-> SelectType(ev.t, ev.path, ev.env)])

Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
