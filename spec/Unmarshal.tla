----------------------------- MODULE Unmarshal -----------------------------
(***************************************************************************)
(* What unmarshaling an element to a type gives.                           *)
(*                                                                         *)
(* Types are tagged tuples:                                                *)
(*   <<"bool">> <<"int">> <<"float">> <<"str">> <<"none">> <<"any">>       *)
(*   <<"bytes">> <<"complex">> <<"slice">> <<"log">> loggers               *)
(*   <<"dtm">> <<"day">> <<"clock">>  datetimes, dates and times           *)
(*   <<"sub", base, cls>>          a subclass of int, float or str         *)
(*   <<"list"|"seq"|"mseq"|"vtuple"|"set"|"deque", T>>                     *)
(*   <<"dict"|"map"|"mmap"|"odict"|"ddict", K, V>>                         *)
(*   <<"user", T, cls>>         a class made from one of these containers  *)
(*   <<"tuple", Ts>> <<"union", Ts>> <<"lit", values>>                     *)
(*   <<"enum", cls, <<name, value>>s>>                                     *)
(*   <<"struct", kind, cls, fields>>   kind "dc", "nt", "td", "fn" or "rf" *)
(*                                 (refuses empty arguments by an exception)*)
(*   <<"ann", T, pre, post>>       annotated, with annotations by name     *)
(*   <<"tvar", Ts>>                constrained (or bound) type variable    *)
(*   <<"proto", Ts>>               protocol, Ts the types that have it     *)
(*   <<"ref", cls>>                the type that env has for this name     *)
(* A field is a record: n name (characters), t type, d <<>> or <<default>>,*)
(* opt whether the key of a typed dict is optional, k its kind: "pk" by    *)
(* name or position, "po" only by position, "ko" only by name, "va"/"vk"   *)
(* any number of positional/named values.                                  *)
(*                                                                         *)
(* Values of types are coded as in Values, and                             *)
(*   <<"is", cls, base>> <<"set", I>> <<"dq", I>> <<"mp", P>> <<"od", P>>  *)
(*   <<"dd", P, init>>  <<"e", cls, name>>  <<"by", bytes>>                *)
(*   <<"o", cls, <<name, value>>s>> object, <<"nt", ...>> named tuple      *)
(*   <<"cx", re, im>> <<"sl", start, stop, step>> <<"lg", name, level>>    *)
(*                                                                         *)
(* Results: [ok |-> TRUE, v |-> value] or                                  *)
(* [ok |-> FALSE, miss |-> is it a missing value error, at |-> fields],    *)
(* with own in its domain if it is an exception of a constructor.          *)
(***************************************************************************)
EXTENDS Element, Dates

Err == [ok |-> FALSE, miss |-> FALSE, at |-> <<>>]
Miss == [ok |-> FALSE, miss |-> TRUE, at |-> <<>>]
Refused == [ok |-> FALSE, miss |-> FALSE, at |-> <<>>, own |-> TRUE]
Absent == <<"absent">>

(* the text that stands for a key or an index in a path *)
KeyText(k) == IF IsNone(k) THEN <<"N","o","n","e">> ELSE PrimText(k)
At(field, r) ==
    IF r.ok \/ field = <<>> THEN r ELSE [r EXCEPT !.at = <<field>> \o @]
IndexText(i) == NatToDigits(i)

EnvType(env, cls) ==
    env[CHOOSE i \in 1..Len(env) : env[i][1] = cls][2]

-----------------------------------------------------------------------------
(* Equality and hashing of python values. *)
NumKey(v) ==
    LET f == IF Tag(v) = "b" THEN IntToFloat(IF v[2] THEN One ELSE Zero)
             ELSE IF Tag(v) = "i" THEN IntToFloat(v) ELSE v
    IN IF Tag(f) = "f" /\ f[3] = <<"0">> THEN <<"num", FALSE, <<"0">>, 0>>
       ELSE <<"num">> \o Tail(f)
RECURSIVE PyKey(_)
PyKey(v) ==
    CASE Tag(v) \in {"b", "i", "f", "finf"} -> NumKey(v)
      [] Tag(v) = "is" -> PyKey(v[3])
      [] Tag(v) = "t" -> <<"t", [i \in 1..Len(v[2]) |-> PyKey(v[2][i])]>>
      [] Tag(v) = "nt" -> <<"t", [i \in 1..Len(v[3]) |-> PyKey(v[3][i][2])]>>
      [] Tag(v) = "l" -> <<"l", [i \in 1..Len(v[2]) |-> PyKey(v[2][i])]>>
      [] Tag(v) = "cx" -> IF v[3][3] = <<"0">> THEN PyKey(v[2])
                          ELSE <<"cx", PyKey(v[2]), PyKey(v[3])>>
      [] OTHER -> v
RECURSIVE Hashable(_)
Hashable(v) ==
    CASE Tag(v) \in {"l", "d", "set", "mp", "od", "dd", "dq", "m", "q"} -> FALSE
      [] Tag(v) = "is" -> Hashable(v[3])
      [] Tag(v) = "t" -> \A i \in 1..Len(v[2]) : Hashable(v[2][i])
      [] Tag(v) = "nt" -> \A i \in 1..Len(v[3]) : Hashable(v[3][i][2])
      [] Tag(v) = "o" -> FALSE
      [] OTHER -> TRUE

DictPut(ps, k, x) ==
    IF \E i \in 1..Len(ps) : PyKey(ps[i][1]) = PyKey(k)
    THEN [i \in 1..Len(ps) |-> IF PyKey(ps[i][1]) = PyKey(k) THEN <<ps[i][1], x>> ELSE ps[i]]
    ELSE Append(ps, <<k, x>>)
DictOf(ps) == FoldLeft(LAMBDA acc, p : DictPut(acc, p[1], p[2]), <<>>, ps)
SetOf(is) ==
    FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : PyKey(acc[i]) = PyKey(x) THEN acc
                             ELSE Append(acc, x), <<>>, is)

(* values up to the order of the items of sets and the levels of loggers, *)
(* which belong to the process *)
RECURSIVE Norm(_)
NormSeq(s) == [i \in 1..Len(s) |-> Norm(s[i])]
NormPairs(ps) == [i \in 1..Len(ps) |-> <<Norm(ps[i][1]), Norm(ps[i][2])>>]
Norm(v) ==
    CASE Tag(v) \in {"l", "t", "q", "dq"} -> <<Tag(v), NormSeq(v[2])>>
      [] Tag(v) \in {"d", "m", "mp", "od"} -> <<Tag(v), NormPairs(v[2])>>
      [] Tag(v) = "dd" -> <<"dd", NormPairs(v[2]), IF v[3][1] = "ok" THEN <<"ok", Norm(v[3][2])>> ELSE v[3]>>
      [] Tag(v) = "set" -> <<"set", {Norm(v[2][i]) : i \in 1..Len(v[2])}, Len(v[2])>>
      [] Tag(v) = "is" -> <<"is", v[2], Norm(v[3])>>
      [] Tag(v) \in {"o", "nt"} -> <<Tag(v), v[2], [i \in 1..Len(v[3]) |-> <<v[3][i][1], Norm(v[3][i][2])>>]>>
      [] Tag(v) = "lg" -> <<"lg", v[2]>>
      [] OTHER -> v

-----------------------------------------------------------------------------
(* Bytes: base64 in the alphabet of URLs or the standard one; characters of*)
(* neither are skipped.                                                    *)
B64 == UpperSeq \o LowerSeq \o <<"0","1","2","3","4","5","6","7","8","9","+","/">>
B64Char(c) == IF c = "-" THEN "+" ELSE IF c = "_" THEN "/" ELSE c
B64Set == {B64[i] : i \in 1..64}
B64Digit == [c \in B64Set |-> IndexOf(B64, c) - 1]
B64Step(st, c0) ==
    LET c == B64Char(c0) IN
    IF st.done THEN st
    ELSE IF c = "=" THEN
        IF st.quad >= 2 /\ st.quad + st.pads + 1 >= 4 THEN [st EXCEPT !.done = TRUE]
        ELSE IF st.quad >= 2 THEN [st EXCEPT !.pads = @ + 1] ELSE st
    ELSE IF c \notin B64Set THEN st
    ELSE LET x == B64Digit[c]
             s == [st EXCEPT !.pads = 0]
         IN CASE st.quad = 0 -> [s EXCEPT !.quad = 1, !.left = x]
              [] st.quad = 1 -> [s EXCEPT !.quad = 2, !.left = x % 16,
                                  !.out = Append(@, (st.left * 4) + (x \div 16))]
              [] st.quad = 2 -> [s EXCEPT !.quad = 3, !.left = x % 4,
                                  !.out = Append(@, (st.left * 16) + (x \div 4))]
              [] OTHER -> [s EXCEPT !.quad = 0, !.left = 0,
                                  !.out = Append(@, (st.left * 64) + x)]
(* Only ASCII text is judged here; each character is one byte. *)
BytesOf(text) ==
    LET pad == [i \in 1..(4 - (Len(text) % 4)) |-> "="]
        end == FoldLeft(B64Step, [quad |-> 0, pads |-> 0, left |-> 0, out |-> <<>>, done |-> FALSE],
                        text \o pad)
    IN IF end.done \/ end.quad = 0 THEN Ok(<<"by", end.out>>) ELSE Err
B64Text(bytes) ==     \* how bytes are written
    LET n == Len(bytes)
        at(i) == IF i <= n THEN bytes[i] ELSE 0
        Sym(x) == LET c == B64[x + 1] IN IF c = "+" THEN "-" ELSE IF c = "/" THEN "_" ELSE c
        Quad(i) == LET a == at(i)  b == at(i + 1)  c == at(i + 2) IN
            <<Sym(a \div 4), Sym((a % 4) * 16 + b \div 16)>>
            \o (IF i + 1 > n THEN <<"=">> ELSE <<Sym((b % 16) * 4 + c \div 64)>>)
            \o (IF i + 2 > n THEN <<"=">> ELSE <<Sym(c % 64)>>)
    IN FlattenSeq([k \in 1..((n + 2) \div 3) |-> Quad(3 * k - 2)])

-----------------------------------------------------------------------------
(* Primitives *)
CastTo(base, e) ==
    CASE base = "bool" -> CastBool(e)
      [] base = "int" -> CastInt(e)
      [] base = "float" -> CastFloat(e)
      [] OTHER -> CastStr(e)
UMPrim(base, e, d) ==
    IF IsMissing(e) THEN IF d # <<>> THEN Ok(d[1]) ELSE Miss
    ELSE IF ~IsPrim(e) THEN Err
    ELSE LET r == CastTo(base, e) IN IF r.ok THEN r ELSE Err

BaseOf(v) ==
    CASE Tag(v) = "b" -> "bool" [] Tag(v) = "i" -> "int"
      [] Tag(v) \in {"f", "finf", "fnan"} -> "float" [] OTHER -> "str"
(* a primitive that, cast to the type of the literal, is the literal *)
MatchesLiteral(lit, e) ==
    /\ IsPrim(lit) /\ IsPrim(e)
    /\ LET r == CastTo(BaseOf(lit), e) IN r.ok /\ PyKey(r.v) = PyKey(lit)

UMEnum(cls, members, e, d) ==
    LET Named == {i \in 1..Len(members) : IsStr(e) /\ members[i][1] = Chars(e)}
        Fits == {i \in 1..Len(members) :
                   IsPrim(e) /\ (MatchesLiteral(Str(members[i][1]), e)
                                 \/ MatchesLiteral(members[i][2], e))}
        First(S) == CHOOSE i \in S : \A j \in S : i <= j
    IN IF Named # {} THEN Ok(<<"e", cls, members[First(Named)][1]>>)
       ELSE IF IsMissing(e) THEN IF d # <<>> THEN Ok(d[1]) ELSE Miss
       ELSE IF Fits # {} THEN Ok(<<"e", cls, members[First(Fits)][1]>>)
       ELSE Err

-----------------------------------------------------------------------------
(* slices as text:  start:stop:step, each an optional integer *)
SplitOn(cs, ch) ==
    FoldLeft(LAMBDA acc, c : IF c = ch THEN Append(acc, <<>>)
                             ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)],
             << <<>> >>, cs)
SliceIndex(cs) ==      \* <<>> if it is none
    LET s == Strip(cs, Space)
        neg == s # <<>> /\ s[1] = "-"
        body == IF neg THEN LStrip(Tail(s), Space) ELSE s
        digits == NoLeadingZeros(body)
    IN IF s = <<>> THEN <<None>>
       ELSE IF body # <<>> /\ \A i \in 1..Len(body) : body[i] \in Digit
       THEN <<IntV(neg /\ digits # <<"0">>, digits)>>
       ELSE <<>>
SliceText(cs) ==
    LET parts == SplitOn(cs, ":")
        idx == [i \in 1..Len(parts) |-> SliceIndex(parts[i])]
    IN IF Len(parts) \notin {2, 3} \/ \E i \in 1..Len(parts) : idx[i] = <<>> THEN Err
       ELSE Ok(<<"sl", idx[1][1], idx[2][1], IF Len(parts) = 3 THEN idx[3][1] ELSE None>>)

-----------------------------------------------------------------------------
(* Annotations *)
(* an unmarshal error of an annotation itself keeps its place *)
InPlace == [ok |-> FALSE, miss |-> FALSE, at |-> << <<"h","e","r","e">>, <<"0">> >>]
PreAnn(a, e) ==
    CASE a[1] = "etag" -> Ok(<<"l", <<e, FromInt(a[2])>>>>)
      [] a[1] = "efirst" -> Ok(IF IsSeq(e) /\ Items(e) # <<>> THEN Items(e)[1] ELSE e)
      [] a[1] = "edef" -> Ok(IF IsMissing(e) THEN FromInt(7) ELSE e)
      [] a[1] = "emiss" -> Ok(Missing)
      [] a[1] = "efailat" -> InPlace
      [] OTHER -> Err
RECURSIVE Bare(_)
Bare(v) == IF Tag(v) = "is" THEN v[3] ELSE v
IsNumber(v) == Tag(Bare(v)) \in {"b", "i", "f", "finf", "fnan"}
Zeroish(v) == Tag(Bare(v)) # "fnan" /\ Tag(Bare(v)) # "finf" /\ NumKey(Bare(v)) = NumKey(Zero)
Negative(v) == Tag(Bare(v)) \in {"i", "f", "finf"} /\ Bare(v)[2] /\ ~Zeroish(v)
Length(v) ==      \* -1 if there is no such thing
    LET b == Bare(v) IN
    CASE Tag(b) \in {"s", "l", "t", "q", "d", "m", "mp", "od", "dd", "set", "dq", "by"} -> Len(b[2])
      [] Tag(b) = "nt" -> Len(b[3])
      [] Tag(b) = "M" -> 3
      [] OTHER -> -1
Empty(v) == IsNone(v) \/ (IsNumber(v) /\ Zeroish(v)) \/ Length(v) = 0
PostAnn(a, v) ==
    CASE a[1] = "tag" -> Ok(<<"t", <<v, FromInt(a[2])>>>>)
      [] a[1] = "pos" -> IF IsNumber(v) /\ ~Zeroish(v) /\ ~Negative(v) THEN Ok(v) ELSE Err
      [] a[1] = "neg" -> IF IsNumber(v) /\ (Negative(v) \/ Tag(Bare(v)) = "fnan") THEN Ok(v) ELSE Err
      [] a[1] = "uns" -> IF IsNumber(v) /\ ~Negative(v) THEN Ok(v) ELSE Err
      [] a[1] = "popd" -> IF Length(v) > 0 THEN Ok(v) ELSE Err
      [] a[1] = "failat" -> InPlace
      [] a[1] = "failmiss" -> Miss
      [] OTHER -> Err
Chain(step(_, _), anns, x) ==
    FoldLeft(LAMBDA acc, a : IF acc.ok THEN step(a, acc.v) ELSE acc, Ok(x), anns)

-----------------------------------------------------------------------------
IsNoneType(t) == t[1] = "none"
FieldOf(n, t) == [n |-> n, t |-> t, d |-> <<>>, opt |-> FALSE, k |-> "pk"]
TupleFields(ts) == [i \in 1..Len(ts) |-> FieldOf(IndexText(i - 1), ts[i])]
IntOrNone == <<"union", << <<"int">>, <<"none">> >> >>
Lit(text) == <<"lit", <<Str(text)>>>>
ComplexArg ==
    <<"union", << <<"float">>, <<"tuple", <<>>>>, <<"tuple", << <<"float">> >> >>,
                  <<"tuple", << <<"float">>, <<"float">> >> >>,
                  <<"map", <<"lit", <<Str(<<"r","e","a","l">>), Str(<<"i","m","a","g">>)>>>>,
                    <<"float">> >> >> >>
FZero == <<"f", FALSE, <<"0">>, 0>>

(* Loggers by their name, with the level they get (0 if they get none). *)
NameText == <<"n","a","m","e">>
LevelText == <<"l","e","v","e","l">>
RootName == <<"r","o","o","t">>
LogArg == <<"union", << <<"str">>, <<"map", <<"lit", <<Str(NameText), Str(LevelText)>>>>,
                                    <<"union", << <<"int">>, <<"str">> >> >> >> >> >>
Levels == <<
    << <<"C","R","I","T","I","C","A","L">>, 50>>, << <<"F","A","T","A","L">>, 50>>, << <<"E","R","R","O","R">>, 40>>,
    << <<"W","A","R","N">>, 30>>, << <<"W","A","R","N","I","N","G">>, 30>>, << <<"I","N","F","O">>, 20>>,
    << <<"D","E","B","U","G">>, 10>>, << <<"N","O","T","S","E","T">>, 0>> >>
LevelNames == {Levels[i][1] : i \in 1..Len(Levels)}
LevelOf(name) == FromInt(Levels[CHOOSE i \in 1..Len(Levels) : Levels[i][1] = name][2])
UMLogger(r) ==
    LET name == IF IsStr(r.v) THEN Chars(r.v)
                ELSE IF HasKey(r.v, Str(NameText)) THEN PrimText(Get(r.v, Str(NameText))) ELSE RootName
        level == IF IsStr(r.v) THEN Zero ELSE GetOr(r.v, Str(LevelText), Zero)
        Is(l) == Ok(<<"lg", IF name = <<>> THEN RootName ELSE name, l>>)
    IN IF ~r.ok THEN Err
       ELSE IF ~IsStr(level) THEN Is(level)
       ELSE IF Chars(level) \in LevelNames THEN Is(LevelOf(Chars(level))) ELSE Err

SeqResult(tag) == CASE tag = "list" -> "l" [] tag = "mseq" -> "l" [] tag = "seq" -> "t"
                    [] tag = "vtuple" -> "t" [] tag = "set" -> "set" [] OTHER -> "dq"
MapResult(tag) == CASE tag = "dict" -> "d" [] tag = "mmap" -> "d" [] tag = "map" -> "mp"
                    [] tag = "odict" -> "od" [] OTHER -> "dd"

RECURSIVE UM(_, _, _, _)

UMItems(t, items, env) ==
    FoldLeft(LAMBDA acc, e :
                IF ~acc.ok THEN acc
                ELSE LET r == UM(t, e, <<>>, env)
                     IN IF r.ok THEN [acc EXCEPT !.v = Append(@, r.v)]
                        ELSE At(IndexText(Len(acc.v)), r),
             Ok(<<>>), items)
UMPairs(kt, vt, pairs, env) ==
    FoldLeft(LAMBDA acc, p :
                IF ~acc.ok THEN acc
                ELSE LET k == UM(kt, p[1], <<>>, env)
                         x == UM(vt, p[2], <<>>, env)
                     IN IF ~k.ok THEN At(KeyText(p[1]), k)
                        ELSE IF ~x.ok THEN At(KeyText(p[1]), x)
                        ELSE [acc EXCEPT !.v = Append(@, <<k.v, x.v>>)],
             Ok(<<>>), pairs)

(* what a default dict gives for a key it does not have *)
InitTries == << Missing, Zero, Str(<<>>), None >>
InitOf(vt, env) ==
    IF vt = <<"any">> THEN <<"ok", None>>
    ELSE FoldLeft(LAMBDA acc, e : IF acc[1] = "ok" THEN acc
                                  ELSE LET r == UM(vt, e, <<>>, env)
                                       IN IF r.ok THEN <<"ok", r.v>> ELSE acc,
                  <<"err">>, InitTries)

(* One parameter after the other gets its value: items is what is left of  *)
(* an element that is a sequence, pairs of one that is a mapping, ca and ck*)
(* of the positional and named values of a call.                           *)
Step(f, st, env) ==
    LET key == Str(f.n)
        hasItem == st.items # <<>> /\ f.k # "ko"
        hasKey == HasKey(<<"d", st.pairs>>, key)
        siteArg == st.ca # <<>> /\ f.k # "ko"
        siteKey == HasKey(<<"d", st.ck>>, key)
        dflt == IF f.opt THEN <<Absent>> ELSE f.d
        Got(r) == IF r.ok THEN [st EXCEPT !.out = Append(@, <<f.n, r.v>>)]
                  ELSE At(f.n, r)
    IN IF f.k = "va" THEN
           LET r == UMItems(f.t, st.items, env)
               s == Got(IF r.ok THEN Ok(<<"t", r.v \o st.ca>>) ELSE r)
           IN IF s.ok THEN [s EXCEPT !.items = <<>>, !.ca = <<>>] ELSE s
       ELSE IF f.k = "vk" THEN
           LET site == SelectSeq(st.ck, LAMBDA p : ~HasKey(<<"d", st.pairs>>, p[1]))
               r == FoldLeft(LAMBDA acc, p :
                        IF ~acc.ok THEN acc
                        ELSE LET x == IF IsStr(p[1]) THEN UM(f.t, p[2], <<>>, env) ELSE Err
                             IN IF x.ok THEN [acc EXCEPT !.v = Append(@, <<p[1], x.v>>)]
                                ELSE At(KeyText(p[1]), x),
                        Ok(site), st.pairs)
               s == Got(IF r.ok THEN Ok(<<"d", r.v>>) ELSE r)
           IN IF s.ok THEN [s EXCEPT !.pairs = <<>>, !.ck = <<>>] ELSE s
       ELSE LET s == IF hasItem THEN Got(UM(f.t, st.items[1], dflt, env))
                     ELSE IF hasKey THEN Got(UM(f.t, Get(<<"d", st.pairs>>, key), dflt, env))
                     ELSE IF siteArg THEN Got(Ok(st.ca[1]))
                     ELSE IF siteKey THEN Got(Ok(Get(<<"d", st.ck>>, key)))
                     ELSE Got(UM(f.t, Missing, dflt, env))
            IN IF ~s.ok THEN s
               ELSE [s EXCEPT !.items = IF hasItem THEN Tail(@) ELSE @,
                              !.pairs = DropPairs(@, key),
                              !.ca = IF siteArg THEN Tail(@) ELSE @,
                              !.ck = DropPairs(@, key)]

Bind(fields, e, ca, ck, env) ==
    IF ~(IsMissing(e) \/ IsMap(e) \/ IsSeq(e)) THEN Err
    ELSE LET start == [ok |-> TRUE, out |-> <<>>, ca |-> ca, ck |-> ck,
                       items |-> IF IsSeq(e) THEN Items(e) ELSE <<>>,
                       pairs |-> IF IsMap(e) THEN Pairs(e) ELSE <<>>]
             end == FoldLeft(LAMBDA st, f : IF st.ok THEN Step(f, st, env) ELSE st,
                             start, fields)
         IN IF ~end.ok THEN end
            ELSE IF end.items # <<>> \/ end.pairs # <<>> THEN Err
            ELSE Ok(end.out)

Construct(kind, cls, out) ==
    CASE kind = "td" -> <<"d", LET present == SelectSeq(out, LAMBDA p : p[2] # Absent)
                               IN [i \in 1..Len(present) |-> <<Str(present[i][1]), present[i][2]>>]>>
      [] kind = "tuple" -> <<"t", [i \in 1..Len(out) |-> out[i][2]]>>
      [] kind = "nt" -> <<"nt", cls, out>>
      [] OTHER -> <<"o", cls, out>>
UMStruct(kind, cls, fields, e, d, env) ==
    IF IsMissing(e) /\ d # <<>> THEN Ok(d[1])
    ELSE LET r == Bind(fields, e, <<>>, <<>>, env)
         IN IF ~r.ok THEN r
            ELSE IF kind = "rf" /\ \E i \in 1..Len(r.v) : Empty(r.v[i][2]) THEN Refused
            ELSE Ok(Construct(kind, cls, r.v))

(* Values given at the call site that the callable does not take are an    *)
(* error of the call itself, whatever the element is.                      *)
Positional(fields) == SelectSeq(fields, LAMBDA f : f.k \in {"po", "pk"})
SiteBad(fields, ca, ck) ==
    LET pos == Positional(fields)
    IN \/ Len(ca) > Len(pos) /\ \A i \in 1..Len(fields) : fields[i].k # "va"
       \/ \E i \in 1..MinOf(Len(pos), Len(ca)) : HasKey(<<"d", ck>>, Str(pos[i].n))
       \/ /\ \A i \in 1..Len(fields) : fields[i].k # "vk"
          /\ \E j \in 1..Len(ck) : \A i \in 1..Len(fields) :
               fields[i].k = "va" \/ Str(fields[i].n) # ck[j][1]

(* A class with components in a namespace (see Names.tla): `name` picks one. *)
UMSpace(base, comps, e, d, env) ==
    LET bare == IF IsMap(e) THEN <<"d", DropPairs(Pairs(e), Str(NameText))>> ELSE e
        name == IF IsMap(e) THEN GetOr(e, Str(NameText), Missing) ELSE Missing
        fit == SelectSeq(comps, LAMBDA c : Str(c[1]) = name)
    IN IF IsMissing(name) THEN UM(base, bare, d, env)
       ELSE IF fit = <<>> THEN Under(NameText, Err)
       ELSE UM(fit[1][2], bare, <<>>, env)

(* An element given together with values for its keys, or with further items; *)
(* they are plain elements, whose sequences are marshaled to tuples.          *)
RECURSIVE Tupled(_)
Tupled(e) ==
    CASE Tag(e) = "l" -> <<"t", [i \in 1..Len(e[2]) |-> Tupled(e[2][i])]>>
      [] Tag(e) = "d" -> <<"d", [i \in 1..Len(e[2]) |-> <<e[2][i][1], Tupled(e[2][i][2])>>]>>
      [] OTHER -> e
With(e, kw) ==
    IF kw = <<>> THEN e
    ELSE <<"d", UpdatePairs(IF IsMissing(e) THEN <<>> ELSE Pairs(e), Tupled(<<"d", kw>>)[2])>>
And(e, more) ==
    IF more = <<>> THEN e
    ELSE <<"l", (IF IsMissing(e) THEN <<>> ELSE Items(e)) \o Tupled(<<"l", more>>)[2]>>

FirstOk(ts, e, env) ==
    FoldLeft(LAMBDA acc, t : IF acc.ok THEN acc ELSE UM(t, e, <<>>, env), Err, ts)

UMUnion(ts, e, d, env) ==
    IF IsMissing(e) /\ d # <<>> THEN Ok(d[1])
    ELSE IF Len(ts) = 2 /\ \E i \in 1..2 : IsNoneType(ts[i]) THEN
        LET t == IF IsNoneType(ts[1]) THEN ts[2] ELSE ts[1]
            r == UM(t, e, <<>>, env)
        IN IF r.ok THEN r
           ELSE IF IsNone(e) \/ IsMissing(e) THEN Ok(None) ELSE r
    ELSE LET r == FirstOk(ts, e, env)
         IN IF r.ok THEN r ELSE IF IsMissing(e) THEN Miss ELSE Err

LitType(v) ==
    CASE IsNone(v) -> <<"none">>
      [] Tag(v) = "e" -> <<"ref", v[2]>>
      [] Tag(v) = "by" -> <<"bytes">>
      [] OTHER -> <<BaseOf(v)>>
UMLiteral(v, e, env) ==
    LET r == UM(LitType(v), e, <<>>, env)
    IN IF ~r.ok THEN r ELSE IF PyKey(r.v) = PyKey(v) THEN r ELSE Err

UM(t, e, d, env) ==
    LET tag == t[1] IN
    CASE tag \in {"bool", "int", "float", "str"} -> UMPrim(tag, e, d)
      [] tag = "sub" ->
           LET r == UMPrim(t[2], e, <<>>)
           IN IF IsMissing(e) THEN UMPrim(t[2], e, d)
              ELSE IF r.ok THEN Ok(<<"is", t[3], r.v>>) ELSE r
      [] tag = "none" ->
           IF IsMissing(e) /\ d # <<>> THEN Ok(d[1])
           ELSE IF IsNone(e) \/ IsMissing(e) THEN Ok(None) ELSE Err
      [] tag = "any" ->
           IF IsMissing(e) /\ d # <<>> THEN Ok(d[1])
           ELSE IF HasMissing(e) THEN Miss ELSE Ok(e)
      [] tag = "bytes" ->
           IF IsMissing(e) THEN IF d # <<>> THEN Ok(d[1]) ELSE Miss
           ELSE IF IsPrim(e) THEN BytesOf(PrimText(e)) ELSE Err
      [] tag = "complex" ->
           IF IsMissing(e) THEN IF d # <<>> THEN Ok(d[1]) ELSE Miss
           ELSE LET r == UM(ComplexArg, e, <<>>, env)
                    Part(name) == GetOr(r.v, Str(name), FZero)
                IN IF ~r.ok THEN Err
                   ELSE IF Tag(r.v) = "t"
                   THEN Ok(<<"cx", IF Len(r.v[2]) >= 1 THEN r.v[2][1] ELSE FZero,
                                   IF Len(r.v[2]) = 2 THEN r.v[2][2] ELSE FZero>>)
                   ELSE IF Tag(r.v) = "mp"
                   THEN Ok(<<"cx", Part(<<"r","e","a","l">>), Part(<<"i","m","a","g">>)>>)
                   ELSE Ok(<<"cx", r.v, FZero>>)
      [] tag \in {"dtm", "day", "clock"} ->   \* other texts than those of Dates are not judged
           IF IsMissing(e) THEN IF d # <<>> THEN Ok(d[1]) ELSE Miss
           ELSE DateOf(tag, e)
      [] tag = "log" -> IF IsMissing(e) THEN IF d # <<>> THEN Ok(d[1]) ELSE Ok(<<"lg", RootName, Zero>>)
                        ELSE UMLogger(UM(LogArg, e, <<>>, env))
      [] tag = "slice" ->
           IF IsMissing(e) THEN IF d # <<>> THEN Ok(d[1]) ELSE Ok(<<"sl", None, None, None>>)
           ELSE IF IsMap(e) THEN
               LET names == << <<"s","t","a","r","t">>, <<"s","t","o","p">>, <<"s","t","e","p">> >>
                   r == UM(<<"dict", <<"lit", [i \in 1..3 |-> Str(names[i])]>>, IntOrNone>>,
                           e, <<>>, env)
               IN IF r.ok THEN Ok(<<"sl">> \o [i \in 1..3 |-> GetOr(r.v, Str(names[i]), None)])
                  ELSE r
           ELSE IF IsSeq(e) THEN
               LET r == UMItems(IntOrNone, Items(e), env)
                   n == Len(r.v)
               IN IF ~r.ok THEN r ELSE IF n > 3 THEN Err
                  ELSE Ok(CASE n = 0 -> <<"sl", None, None, None>>
                            [] n = 1 -> <<"sl", None, r.v[1], None>>
                            [] n = 2 -> <<"sl", r.v[1], r.v[2], None>>
                            [] OTHER -> <<"sl">> \o r.v)
           ELSE IF IsPrim(e) THEN SliceText(PrimText(e)) ELSE Err
      [] tag \in {"list", "seq", "mseq", "vtuple", "set", "deque"} ->
           IF IsMissing(e) THEN IF d # <<>> THEN Ok(d[1]) ELSE Ok(<<SeqResult(tag), <<>>>>)
           ELSE IF ~IsSeq(e) THEN Err
           ELSE LET r == UMItems(t[2], Items(e), env)
                IN IF ~r.ok THEN r
                   ELSE IF tag # "set" THEN Ok(<<SeqResult(tag), r.v>>)
                   ELSE IF \A i \in 1..Len(r.v) : Hashable(r.v[i]) THEN Ok(<<"set", SetOf(r.v)>>)
                   ELSE Err
      [] tag \in {"dict", "map", "mmap", "odict", "ddict"} ->
           LET Make(ps) == IF tag = "ddict" THEN <<"dd", ps, InitOf(t[3], env)>>
                           ELSE <<MapResult(tag), ps>>
           IN IF IsMissing(e) THEN IF d # <<>> THEN Ok(d[1]) ELSE Ok(Make(<<>>))
              ELSE IF ~IsMap(e) THEN Err
              ELSE LET r == UMPairs(t[2], t[3], Pairs(e), env)
                   IN IF ~r.ok THEN r
                      ELSE IF \A i \in 1..Len(r.v) : Hashable(r.v[i][1])
                      THEN Ok(Make(DictOf(r.v)))
                      ELSE Err
      [] tag = "user" ->
           IF IsMissing(e) /\ d # <<>> THEN Ok(d[1])
           ELSE LET r == UM(t[2], e, <<>>, env) IN IF r.ok THEN Ok(<<"is", t[3], r.v>>) ELSE r
      [] tag = "tuple" -> UMStruct("tuple", "", TupleFields(t[2]), e, d, env)
      [] tag = "struct" -> UMStruct(t[2], t[3], t[4], e, d, env)
      [] tag = "space" -> UMSpace(t[2], t[3], e, d, env)
      [] tag = "union" -> UMUnion(t[2], e, d, env)
      [] tag = "tvar" -> IF Len(t[2]) = 1 THEN UM(t[2][1], e, d, env) ELSE UMUnion(t[2], e, d, env)
      [] tag = "lit" ->
           IF IsMissing(e) /\ d # <<>> THEN Ok(d[1])
           ELSE IF Len(t[2]) = 1 THEN UMLiteral(t[2][1], e, env)
           ELSE LET r == FoldLeft(LAMBDA acc, v : IF acc.ok THEN acc ELSE UMLiteral(v, e, env),
                                  Err, t[2])
                IN IF r.ok THEN r ELSE Err
      [] tag = "enum" -> UMEnum(t[2], t[3], e, d)
      [] tag = "proto" ->
           IF IsMissing(e) /\ d # <<>> THEN Ok(d[1])
           ELSE LET r == FirstOk(t[2], e, env) IN IF r.ok THEN r ELSE Err
      [] tag = "ann" ->
           LET pre == Chain(PreAnn, t[3], e)
               r == UM(t[2], pre.v, d, env)
           IN IF ~pre.ok THEN pre
              ELSE IF ~r.ok \/ r.v = Absent THEN r
              ELSE Chain(PostAnn, t[4], r.v)
      [] tag = "ref" -> UM(EnvType(env, t[2]), e, d, env)
=============================================================================
