-------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* What the documentation of a type shows and which type is at a path.     *)
(*                                                                         *)
(* Types are those of Unmarshal, and                                       *)
(*   <<"space", T, <<name, T>>s>>   T with the components of a namespace   *)
(*                                                                         *)
(* Documentation is a record                                               *)
(*   d  <<>>, or <<the text of the default>>                               *)
(*   f  <<>>, or <<the list of <<name, documentation>>s>>                  *)
(*   s  the names of components                                            *)
(* A recursive type is documented at least once: Docs gives what it shows  *)
(* if the fields of references are (deep) or are not (~deep) repeated, and *)
(* IsDoc takes either at every reference.                                  *)
(***************************************************************************)
EXTENDS Marshal, PathText

(* the text python gives for a value, and in containers *)
QuoteOf(cs) == IF InSeq(cs, "'") /\ ~InSeq(cs, "\"") THEN "\"" ELSE "'"
ReprText(cs) ==
    LET q == QuoteOf(cs)
    IN <<q>> \o FoldLeft(LAMBDA acc, c :
            acc \o (IF c = q \/ c = Backslash THEN <<Backslash, c>>
                    ELSE IF c = "\n" THEN <<Backslash, "n">>
                    ELSE IF c = "\t" THEN <<Backslash, "t">>
                    ELSE IF c = "\r" THEN <<Backslash, "r">>
                    ELSE <<c>>), <<>>, cs) \o <<q>>
RECURSIVE JoinText(_)
JoinText(parts) ==
    IF parts = <<>> THEN <<>>
    ELSE IF Len(parts) = 1 THEN parts[1]
    ELSE parts[1] \o <<",", " ">> \o JoinText(Tail(parts))
RECURSIVE Repr(_)
Repr(v) ==
    CASE IsNone(v) -> KeyText(None)
      [] Tag(v) = "s" -> ReprText(Chars(v))
      [] Tag(v) = "l" -> <<"[">> \o JoinText([i \in 1..Len(v[2]) |-> Repr(v[2][i])]) \o <<"]">>
      [] Tag(v) = "t" -> <<"(">> \o JoinText([i \in 1..Len(v[2]) |-> Repr(v[2][i])])
                         \o (IF Len(v[2]) = 1 THEN <<",", ")">> ELSE <<")">>)
      [] Tag(v) = "d" -> <<"{">> \o JoinText([i \in 1..Len(v[2]) |->
                                Repr(v[2][i][1]) \o <<":", " ">> \o Repr(v[2][i][2])]) \o <<"}">>
      [] OTHER -> PrimText(v)
TextOf(v) == IF Tag(v) = "s" THEN Chars(v) ELSE Repr(v)

-----------------------------------------------------------------------------
Dots3 == <<".", ".", ".">>
(* the default a field shows: values that are made by a factory are not shown *)
FieldDefault(f) ==
    IF f.d = <<>> THEN IF f.opt THEN << <<>> >> ELSE <<>>
    ELSE IF f.f THEN <<Dots3>>
    ELSE <<TextOf(M(f.d[1]))>>

Stars(k) == CASE k = "va" -> <<"*">> [] k = "vk" -> <<"*", "*">> [] OTHER -> <<>>
Shown(f) == Stars(f.k) \o f.n

IndexField(n, t) == [n |-> n, t |-> t, d |-> <<>>, opt |-> FALSE, k |-> "pk", f |-> FALSE]

(* the type itself, without annotations and variables *)
RECURSIVE Peel(_, _)
Peel(t, env) ==
    CASE t[1] = "ann" -> Peel(t[2], env)
      [] t[1] = "tvar" -> IF Len(t[2]) = 1 THEN Peel(t[2][1], env) ELSE <<"union", t[2]>>
      [] t[1] = "ref" -> Peel(EnvType(env, t[2]), env)
      [] OTHER -> t
RECURSIVE IsRef(_)
IsRef(t) ==
    CASE t[1] = "ref" -> TRUE
      [] t[1] = "ann" -> IsRef(t[2])
      [] t[1] = "tvar" -> Len(t[2]) = 1 /\ IsRef(t[2][1])
      [] OTHER -> FALSE

(* does the type consist of named fields, and which *)
RECURSIVE IsStruct(_)
IsStruct(p) == p[1] \in {"struct", "tuple"} \/ (p[1] = "space" /\ IsStruct(p[2]))
RECURSIVE FieldsOf(_)
FieldsOf(p) ==
    CASE p[1] = "struct" -> p[4]
      [] p[1] = "tuple" -> [i \in 1..Len(p[2]) |-> IndexField(IndexText(i - 1), p[2][i])]
      [] OTHER -> FieldsOf(p[2])
ComponentsOf(p) == IF p[1] = "space" THEN [i \in 1..Len(p[3]) |-> p[3][i][1]] ELSE <<>>

(* is obs the documentation of t, whose default shows as d, down to depth *)
RECURSIVE IsDoc(_, _, _, _, _)
IsDoc(obs, t, d, depth, env) ==
    LET p == Peel(t, env)
        full ==
            /\ obs.s = ComponentsOf(p)
            /\ IF depth <= 0 \/ ~IsStruct(p) THEN obs.f = <<>>
               ELSE LET fs == FieldsOf(p)
                    IN /\ Len(obs.f) = 1
                       /\ Len(obs.f[1]) = Len(fs)
                       /\ \A i \in 1..Len(fs) :
                            /\ obs.f[1][i][1] = Shown(fs[i])
                            /\ IsDoc(obs.f[1][i][2], fs[i].t, FieldDefault(fs[i]), depth - 1, env)
        cut == IsRef(t) /\ obs.f = <<>> /\ obs.s = <<>>
    IN obs.d = d /\ (full \/ cut)

(* what a type shows, for the model and for messages *)
RECURSIVE DocOf(_, _, _, _, _)
DocOf(t, d, depth, env, deep) ==
    LET p == Peel(t, env)
    IN IF IsRef(t) /\ ~deep THEN [d |-> d, f |-> <<>>, s |-> <<>>]
       ELSE [d |-> d, s |-> ComponentsOf(p),
             f |-> IF depth <= 0 \/ ~IsStruct(p) THEN <<>>
                   ELSE LET fs == FieldsOf(p)
                        IN << [i \in 1..Len(fs) |->
                                <<Shown(fs[i]), DocOf(fs[i].t, FieldDefault(fs[i]), depth - 1, env, deep)>>] >>]

(***************************************************************************)
(* Values given at the call site are the defaults of their parameters: one *)
(* for each that can be given by position, the others by name, the rest to *)
(* the parameters that take any number.                                    *)
(***************************************************************************)
SiteStep(f, st) ==
    LET byname == SelectSeq(st.kw, LAMBDA q : q[1] = f.n /\ f.k \notin {"va", "vk"})
        rest == SelectSeq(st.kw, LAMBDA q : q[1] # f.n)
        d0 == FieldDefault(f)
    IN CASE f.k = "va" ->
             IF st.args = <<>> THEN [st EXCEPT !.ds = Append(@, d0)]
             ELSE [st EXCEPT !.ds = Append(@, <<Repr(<<"l", st.args>>)>>), !.args = <<>>]
         [] f.k = "vk" ->
             IF st.kw = <<>> THEN [st EXCEPT !.ds = Append(@, d0)]
             ELSE [st EXCEPT !.ds = Append(@, <<Repr(<<"d", [i \in 1..Len(st.kw) |-> <<Str(st.kw[i][1]), st.kw[i][2]>>]>>)>>),
                             !.kw = <<>>]
         [] f.k # "ko" /\ st.args # <<>> ->
             [st EXCEPT !.ds = Append(@, <<TextOf(Head(st.args))>>), !.args = Tail(st.args)]
         [] byname # <<>> ->
             [st EXCEPT !.ds = Append(@, <<TextOf(byname[1][2])>>), !.kw = rest]
         [] OTHER -> [st EXCEPT !.ds = Append(@, d0)]
SiteDefaults(fields, ca, ck) ==
    FoldLeft(LAMBDA st, f : SiteStep(f, st), [args |-> ca, kw |-> ck, ds |-> <<>>], fields).ds

IsSiteDoc(obs, t, depth, env, ca, ck) ==
    LET fs == FieldsOf(t)
        ds == SiteDefaults(fs, ca, ck)
    IN /\ obs.d = <<>> /\ obs.s = <<>>
       /\ IF depth <= 0 THEN obs.f = <<>>
          ELSE /\ Len(obs.f) = 1 /\ Len(obs.f[1]) = Len(fs)
               /\ \A i \in 1..Len(fs) :
                    /\ obs.f[1][i][1] = Shown(fs[i])
                    /\ IsDoc(obs.f[1][i][2], fs[i].t, ds[i], depth - 1, env)

-----------------------------------------------------------------------------
(***************************************************************************)
(* The type at a path.  Sequences and mappings take no part in it, their   *)
(* values have the path; a type that may be none is the type it may be.    *)
(***************************************************************************)
Optional(p) == p[1] = "union" /\ Len(p[2]) = 2 /\ \E i \in 1..2 : IsNoneType(p[2][i])
Other(p) == IF IsNoneType(p[2][1]) THEN p[2][2] ELSE p[2][1]
NoStars(cs) == Strip(cs, {"*"})
Ended(at) == [ok |-> FALSE, at |-> at]
RECURSIVE Sel(_, _, _, _, _)
Sel(t, f, path, at, env) ==
    LET p == Peel(t, env)
        here == IF path = <<>> THEN [ok |-> TRUE, t |-> p, f |-> f, at |-> at] ELSE Ended(at)
        plain == IndexField(<<>>, <<"none">>)
        into(fs) ==
            LET hits == SelectSeq(fs, LAMBDA g : NoStars(g.n) = NoStars(path[1]))
            IN IF hits = <<>> THEN Ended(at)
               ELSE Sel(hits[1].t, hits[1], Tail(path), Append(at, path[1]), env)
    IN CASE p[1] \in {"list", "seq", "mseq", "vtuple", "set", "deque"} -> Sel(p[2], plain, path, at, env)
         [] p[1] \in {"dict", "map", "mmap", "odict", "ddict"} -> Sel(p[3], plain, path, at, env)
         [] p[1] = "union" -> IF Optional(p) THEN Sel(Other(p), plain, path, at, env) ELSE here
         [] p[1] \in {"struct", "tuple"} -> IF path = <<>> THEN here ELSE into(FieldsOf(p))
         [] p[1] = "space" ->
                IF path = <<>> THEN here
                ELSE LET hits == SelectSeq(p[3], LAMBDA c : c[1] = path[1])
                     IN IF hits # <<>> THEN Sel(hits[1][2], plain, Tail(path), Append(at, path[1]), env)
                        ELSE into(FieldsOf(p))
         [] OTHER -> here
SelectType(t, text, env) == Sel(t, IndexField(<<>>, <<"none">>), Split(text, Dot).fields, <<>>, env)

-----------------------------------------------------------------------------
(***************************************************************************)
(* The lines of a documentation (with the texts y of types): one for each  *)
(* field and for each component, indented by depth.                        *)
(***************************************************************************)
RECURSIVE Lines(_, _, _, _)
Lines(obs, prefix, level, depth) ==
    IF level >= depth THEN <<>>
    ELSE LET fs == IF obs.f = <<>> THEN <<>> ELSE obs.f[1]
             one(q) ==
                LET path == Append(prefix, q[1])
                    tail == (IF q[3] = <<>> THEN <<>> ELSE <<":", " ">> \o q[3])
                            \o (IF q[2].d = <<>> \/ q[2].d = << <<>> >> THEN <<>>
                                ELSE <<" ", "=", " ">> \o q[2].d[1])
                IN << [indent |-> 2 + 2 * level, path |-> path, tail |-> tail] >>
                   \o Lines(q[2], path, level + 1, depth)
             spaces == [i \in 1..Len(obs.s) |-> [indent |-> 2 + 2 * level, path |-> <<>>,
                                                tail |-> <<"n","a","m","e"," ","=", " ", "\"">> \o obs.s[i]
                                                         \o <<"\"", " ", "-", ">", " ">> \o obs.st[i]]]
         IN FoldLeft(LAMBDA acc, q : acc \o one(q), <<>>, fs) \o spaces
IsLine(got, want) ==
    LET k == Len(got.text) - Len(want.tail)
    IN /\ got.indent = want.indent
       /\ k >= 0
       /\ SubSeq(got.text, k + 1, Len(got.text)) = want.tail
       /\ Split(SubSeq(got.text, 1, k), Dot) = [ok |-> TRUE, fields |-> want.path]
AreLines(got, want) ==
    Len(got) = Len(want) /\ \A i \in 1..Len(want) : IsLine(got[i], want[i])
=============================================================================
