---------------------------- MODULE MCUnmarshal ----------------------------
(***************************************************************************)
(* Every type of a small family with every element of a small family; one  *)
(* family per property (What), larger ones with Deep.  The laws below hold *)
(* of every one of them; what is specified is printed and replayed.        *)
(***************************************************************************)
EXTENDS Unmarshal, TLC, Json
CONSTANTS What, Deep

C(text) == [i \in 1..Len(text) |-> SubSeq(text, i, i)]     \* "ab" as characters
S(text) == Str(C(text))
I(n) == FromInt(n)
F(neg, d, x) == <<"f", neg, <<d>>, x>>
L(xs) == <<"l", xs>>
D(ps) == <<"d", ps>>
T(xs) == <<"t", xs>>
(* all sequences over the items of a sequence *)
RECURSIVE Words(_, _)
Words(n, xs) ==
    IF n = 0 THEN << <<>> >>
    ELSE LET shorter == Words(n - 1, xs)
         IN shorter \o FlattenSeq([i \in 1..Len(shorter) |->
                IF Len(shorter[i]) < n - 1 THEN <<>> ELSE [j \in 1..Len(xs) |-> Append(shorter[i], xs[j])]])
Over(f(_), xs) == [i \in 1..Len(xs) |-> f(xs[i])]
Cross(f(_, _), xs, ys) == FlattenSeq([i \in 1..Len(xs) |-> [j \in 1..Len(ys) |-> f(xs[i], ys[j])]])
(* all ways to leave out some of a sequence *)
RECURSIVE Parts(_)
Parts(xs) == IF xs = <<>> THEN << <<>> >>
             ELSE LET rest == Parts(Tail(xs)) IN rest \o Over(LAMBDA r : <<xs[1]>> \o r, rest)
Keep(xs, ok(_)) == SelectSeq(xs, ok)

Nr == <<"int">>   Bl == <<"bool">>   Fl == <<"float">>   St == <<"str">>   No == <<"none">>   An == <<"any">>
ListOf(t) == <<"list", t>>
DictOfStr(t) == <<"dict", St, t>>
Union(ts) == <<"union", ts>>
Opt(t) == Union(<<t, No>>)
Ann(t, pre, post) == <<"ann", t, pre, post>>
Field(n, t, d, k) == [n |-> C(n), t |-> t, d |-> d, opt |-> FALSE, k |-> k, f |-> FALSE, iv |-> FALSE]
Pk(n, t) == Field(n, t, <<>>, "pk")
Struct(kind, cls, fs) == <<"struct", kind, cls, fs>>
Colour == <<"enum", "E1", << <<C("a"), I(1)>>, <<C("b"), S("a")>>, <<C("c"), I(2)>> >> >>
Lits(vs) == <<"lit", vs>>
Plain(ts) == Over(LAMBDA t : [t |-> t, env |-> <<>>], ts)

-----------------------------------------------------------------------------
(* U01: primitives, from numbers and from all short texts *)
Numbers == << Bool(TRUE), Bool(FALSE), I(0), I(1), I(-1), I(2), I(10), I(-12), F(FALSE, "0", 0), F(TRUE, "0", 0), F(FALSE, "1", 0), F(FALSE, "5", -1),
              F(TRUE, "1", 0), F(FALSE, "1", 1), F(FALSE, "2", 3), F(FALSE, "1", -7), <<"finf", FALSE>>, <<"finf", TRUE>>, <<"fnan">>,
              None, Missing, L(<<>>), D(<<>>), L(<<I(1)>>) >>
TextWords == << "true", "True", "tRUE", "false", "FALSE", "yes", "no", "on", "off", "y", "n", "t", "f", "null", "none", "inf", "-inf", "nan", "Infinity",
                "a", "b", "c", "1:2", "::", "1::-1", ":", "+1", "+0", "1+1", "1e1", "1E-1", "0x1", "1_0", "_1", "00", "01", "-0", "1.", ".1", "AA==" >>
Digits0 == IF Deep THEN <<"0", "1", "-", ".", "e", "_", " ", "+">> ELSE <<"0", "1", "-", ".", "e", " ">>
PrimElems == Numbers \o Over(LAMBDA w : S(w), TextWords) \o Over(LAMBDA w : Str(w), Words(IF Deep THEN 4 ELSE 3, Digits0))
PrimTypes == << Bl, Nr, Fl, St, <<"sub", "int", "S1">>, <<"sub", "float", "S2">>, <<"sub", "str", "S3">>, No, <<"bytes">>, <<"slice">>, <<"complex">>,
                Lits(<<I(1)>>), Lits(<<S("1")>>), Lits(<<Bool(TRUE)>>), Lits(<<I(0), S("0"), Bool(FALSE)>>), Lits(<<S("0"), I(0)>>), Lits(<<None>>),
                Lits(<<S("a"), I(-1), None>>), Colour, <<"enum", "E2", << <<C("x"), S("1")>>, <<C("y"), I(1)>> >> >>,
                <<"proto", <<Fl, Nr, Bl>>, "SupportsInt">>, Opt(Nr), Opt(Bl) >>

-----------------------------------------------------------------------------
(* U02: unions of two and three alternatives *)
Alternatives == << Nr, Bl, Fl, St, No, ListOf(Nr), DictOfStr(Nr), Lits(<<I(1)>>), Lits(<<S("a")>>), <<"tuple", <<Nr, Nr>>>>,
                   Struct("dc", "A1", <<Pk("x", Nr)>>), Colour, <<"set", St>> >>
Distinct(ts) == \A i, j \in 1..Len(ts) : i < j => ts[i] # ts[j]
Exactly(n, xs) == Keep(Words(n, xs), LAMBDA w : Len(w) = n /\ Distinct(w))
UnionTypes == Over(Union, Exactly(2, Alternatives) \o Exactly(3, IF Deep THEN Alternatives ELSE SubSeq(Alternatives, 1, 7)))
              \o << Union(<<Opt(Nr), St>>), ListOf(Union(<<Nr, St>>)), ListOf(Opt(Nr)), <<"dict", Union(<<Nr, St>>), Union(<<Bl, Fl>>)>>,
                    <<"tvar", <<Nr, St>>>>, <<"tvar", <<St, Nr>>>>, <<"tvar", <<Fl>>>> >>
UnionElems == << None, Missing, Bool(TRUE), I(0), I(1), I(2), F(FALSE, "1", 0), F(FALSE, "5", -1), S("1"), S("a"), S("true"), S("0"), S(""), S("x"), S("1.5"),
                 L(<<>>), L(<<I(1)>>), L(<<S("1"), I(2)>>), T(<<S("a"), S("b")>>), L(<<I(1), None>>), L(<<L(<<>>)>>),
                 D(<<>>), D(<< <<S("x"), I(1)>> >>), D(<< <<S("x"), S("a")>> >>), D(<< <<S("0"), I(1)>>, <<S("1"), I(2)>> >>), D(<< <<I(1), S("1")>> >>) >>

-----------------------------------------------------------------------------
(* U03: structures of two fields *)
FieldTypes == IF Deep THEN <<Nr, St, ListOf(Nr), Opt(Nr), Struct("dc", "I1", <<Pk("a", Nr)>>)>> ELSE <<Nr, ListOf(Nr), Opt(Nr)>>
DefaultFor(t) == CASE t = Nr -> I(7) [] t = St -> S("d") [] t = Opt(Nr) -> None [] OTHER -> Missing
Defaults(t) == IF DefaultFor(t) = Missing THEN << <<>> >> ELSE << <<>>, <<DefaultFor(t)>> >>
TwoFields(k) ==
    LET one(n) == FlattenSeq(Over(LAMBDA t : Over(LAMBDA d : Field(n, t, d, k), Defaults(t)), FieldTypes))
    IN Keep(Cross(LAMBDA f, g : <<f, g>>, one("a"), one("b")), LAMBDA fs : k = "ko" \/ fs[1].d = <<>> \/ fs[2].d # <<>>)
WithOpt(fs) == << fs, << [fs[1] EXCEPT !.opt = TRUE], fs[2] >>, << [fs[1] EXCEPT !.opt = TRUE], [fs[2] EXCEPT !.opt = TRUE] >> >>
NoDefaults(fs) == \A i \in 1..Len(fs) : fs[i].d = <<>>
StructTypes ==
    Over(LAMBDA fs : Struct("dc", "C1", fs), TwoFields("pk")) \o Over(LAMBDA fs : Struct("dc", "C1", fs), Keep(TwoFields("ko"), LAMBDA fs : Deep \/ fs[1].d # <<>>))
    \o Over(LAMBDA fs : Struct("nt", "C1", fs), TwoFields("pk"))
    \o FlattenSeq(Over(LAMBDA fs : Over(LAMBDA gs : Struct("td", "C1", gs), WithOpt(fs)), Keep(TwoFields("pk"), NoDefaults)))
    \o Over(LAMBDA fs : <<"tuple", <<fs[1].t, fs[2].t>>>>, Keep(TwoFields("pk"), NoDefaults)) \o << <<"tuple", <<>>>>, <<"tuple", <<Nr>>>> >>
    \o << ListOf(Struct("dc", "C1", <<Pk("a", Nr)>>)), Struct("dc", "C1", <<>>), Struct("td", "C1", <<>>) >>
Given == <<I(1), S("x"), Missing, None, L(<<S("2")>>)>>
Maybe(n) == << <<>> >> \o Over(LAMBDA v : << <<S(n), v>> >>, Given)
StructElems ==
    Cross(LAMBDA a, b : D(a \o b), Maybe("a"), Maybe("b")) \o Cross(LAMBDA a, b : D(b \o a), SubSeq(Maybe("a"), 2, 3), SubSeq(Maybe("b"), 2, 3))
    \o Over(LAMBDA a : D(a \o << <<S("z"), I(1)>> >>), Maybe("a")) \o Over(LAMBDA w : L(w), Words(2, Given)) \o << T(<<I(1), I(2), I(3)>>) >>
    \o << I(1), None, Missing, S("a"), D(<< <<S("0"), I(1)>>, <<S("1"), I(2)>> >>), D(<< <<None, I(1)>> >>), D(<< <<I(0), I(1)>> >>),
          L(<<D(<< <<S("a"), S("1")>> >>)>>), L(<<D(<<>>)>>), D(<< <<S("a"), D(<< <<S("a"), S("1")>> >>)>>, <<S("b"), I(3)>> >>) >>

-----------------------------------------------------------------------------
(* U05: containers *)
ItemTypes == <<Nr, St, An, ListOf(Nr), Opt(Nr)>>
Kinds1 == <<"list", "seq", "mseq", "vtuple", "set", "deque">>
Kinds2 == <<"dict", "map", "mmap", "odict", "ddict">>
ContainerTypes == Cross(LAMBDA k, t : <<k, t>>, Kinds1, ItemTypes)
                  \o FlattenSeq(Over(LAMBDA k : Cross(LAMBDA kt, vt : <<k, kt, vt>>, <<St, Nr, Union(<<Nr, St>>), Opt(St)>>, <<Nr, St, An, ListOf(Nr)>>), Kinds2))
                  \o << ListOf(<<"dict", St, ListOf(Nr)>>), <<"dict", <<"tuple", <<Nr>>>>, Nr>> >>
                  \o Over(LAMBDA t : <<"user", t, "X1">>, Cross(LAMBDA k, t : <<k, t>>, <<"list", "vtuple", "set", "deque">>, <<Nr, An>>)
                         \o Cross(LAMBDA k, t : <<k, t, Nr>>, <<"dict", "odict", "ddict">>, <<St, Nr>>))
                  \o << Opt(<<"user", ListOf(Nr), "X1">>), <<"set", <<"user", <<"vtuple", Nr>>, "X1">> >> >>
Items0 == <<I(1), S("2"), S("x"), None, L(<<I(1)>>), Bool(TRUE), Missing>>
Keys0 == <<S("1"), I(1), S("a"), Bool(TRUE), None>>
ContainerElems ==
    Over(LAMBDA w : L(w), Words(2, Items0)) \o (IF Deep THEN Over(LAMBDA w : T(w), Keep(Words(3, Items0), LAMBDA w : Len(w) = 3)) ELSE <<>>)
    \o << T(<<I(1), I(2)>>), <<"q", <<I(1), S("1")>>>>, L(<<I(1), I(1), S("1")>>), I(1), S("ab"), None, Missing, Bool(TRUE) >>
    \o << D(<<>>), <<"m", << <<S("a"), I(1)>> >> >> >>
    \o Cross(LAMBDA k, v : D(<< <<k, v>> >>), Keys0, Items0)
    \o Cross(LAMBDA k, l : D(<< <<k, I(1)>>, <<l, S("2")>> >>), <<S("1"), S("a"), None>>, <<I(1), S("b"), I(2)>>)
    \o << L(<<D(<< <<S("a"), L(<<S("1"), I(2)>>)>> >>)>>), L(<<D(<< <<S("a"), L(<<S("1"), S("q")>>)>> >>)>>) >>

-----------------------------------------------------------------------------
(* U06: annotations, and the places where they occur *)
Pres == << <<"etag", 1>>, <<"efirst", 0>>, <<"edef", 0>>, <<"emiss", 0>> >>
Posts == << <<"tag", 1>>, <<"tag", 2>>, <<"pos", 0>>, <<"neg", 0>>, <<"uns", 0>>, <<"popd", 0>> >>
OneEach == Cross(LAMBDA p, q : <<p, q>>, Words(1, Pres), Words(1, Posts))
Chains == OneEach \o Over(LAMBDA p : <<p, <<>>>>, Words(2, Pres)) \o Over(LAMBDA q : << <<>>, q >>, Words(IF Deep THEN 3 ELSE 2, Posts))
Annotated(t, cs) == Over(LAMBDA c : Ann(t, c[1], c[2]), Keep(cs, LAMBDA c : c # << <<>>, <<>> >>))
Places(t) == << ListOf(t), <<"dict", t, t>>, <<"tuple", <<St, t>>>>, Opt(t), Union(<<t, St>>), Union(<<Bl, t>>), <<"set", t>>,
                Struct("dc", "C1", <<Pk("a", t), Field("b", t, <<I(9)>>, "pk")>>), Struct("td", "C1", <<[Pk("a", t) EXCEPT !.opt = TRUE]>>),
                Struct("nt", "C1", <<Pk("a", t)>>), <<"tvar", <<t>>>> >>
AnnTypes == Annotated(Nr, Chains) \o Annotated(ListOf(Nr), OneEach) \o Annotated(St, OneEach) \o Annotated(Opt(Nr), OneEach)
            \o FlattenSeq(Over(Places, Annotated(Nr, IF Deep THEN Chains ELSE OneEach)))
AnnElems == << I(1), I(0), I(-3), S("1"), S("x"), S(""), None, Missing, L(<<>>), L(<<I(1)>>), L(<<S("2"), I(-1)>>), L(<<L(<<I(3)>>)>>),
               D(<< <<S("a"), I(2)>> >>), D(<< <<I(1), I(-1)>> >>), D(<< <<S("a"), Missing>> >>), F(FALSE, "5", -1) >>

-----------------------------------------------------------------------------
(* U07: recursive types *)
Ref(n) == <<"ref", n>>
Def(n, kind, fs) == <<n, Struct(kind, n, fs)>>
Later(k, n, t) == IF k = "td" THEN [Pk(n, t) EXCEPT !.opt = TRUE] ELSE Field(n, t, <<None>>, "pk")
Chained(kind) == << Def("N1", kind, <<Pk("v", Nr), Later(kind, "n", Opt(Ref("N1")))>>) >>
Trees(kind, c(_)) == << Def("N1", kind, <<Pk("v", Nr), Pk("c", c(Ref("N1")))>>) >>
Mutual(k, l) == << Def("N1", k, <<Later(k, "b", Opt(Ref("N2")))>>), Def("N2", l, <<Pk("v", Nr), Later(l, "a", Opt(Ref("N1")))>>) >>
Either == << Def("N1", "dc", <<Field("x", Union(<<Nr, Ref("N1"), ListOf(Ref("N1"))>>), <<I(0)>>, "pk")>>) >>
Both == << Def("N1", "dc", <<Pk("r", ListOf(Ref("N2"))), Later("dc", "l", Opt(Ref("N1")))>>), Def("N2", "dc", <<Later("dc", "n", Opt(Ref("N1")))>>) >>
Envs == << Chained("dc"), Chained("nt"), Chained("td"), Trees("dc", ListOf), Trees("td", ListOf), Trees("dc", DictOfStr), Trees("nt", LAMBDA t : <<"vtuple", t>>),
           Mutual("dc", "dc"), Mutual("td", "dc"), Mutual("nt", "td"), Either, Both >>
RecTypes == FlattenSeq(Over(LAMBDA env :
                FlattenSeq(Over(LAMBDA d : << [t |-> d[2], env |-> env], [t |-> ListOf(Ref(d[1])), env |-> env], [t |-> Opt(Ref(d[1])), env |-> env],
                                             [t |-> Union(<<Nr, Ref(d[1])>>), env |-> env], [t |-> Struct("dc", "W1", <<Pk("w", Ref(d[1]))>>), env |-> env] >>,
                                env)), Envs))
Level0 == << None, Missing, I(1), S("x"), L(<<>>), D(<<>>) >>
Grow(es) == Over(LAMBDA e : D(<< <<S("v"), I(1)>>, <<S("n"), e>> >>), es) \o Over(LAMBDA e : D(<< <<S("v"), I(2)>>, <<S("c"), L(<<e>>)>> >>), es)
            \o Over(LAMBDA e : D(<< <<S("b"), e>> >>), es) \o Over(LAMBDA e : D(<< <<S("a"), e>>, <<S("v"), S("3")>> >>), es)
            \o Over(LAMBDA e : D(<< <<S("x"), e>> >>), es) \o Over(LAMBDA e : L(<<I(4), e>>), es) \o Over(LAMBDA e : D(<< <<S("r"), L(<<D(<< <<S("n"), e>> >>)>>)>>, <<S("l"), e>> >>), es)
Chosen(n, es) == [i \in 1..(Len(es) \div n) |-> es[i * n]]
RecElems == LET one == Level0 \o Grow(Level0)
                two == one \o Grow(one)
            IN two \o Over(LAMBDA e : D(<< <<S("w"), e>> >>), one) \o Chosen(IF Deep THEN 3 ELSE 17, Grow(two))

-----------------------------------------------------------------------------
(* U08, U09: types inside of types, and elements with things wrong or missing in them *)
Inner == << Nr, ListOf(Nr), DictOfStr(Nr), <<"tuple", <<Nr, St>>>>, Struct("dc", "C2", <<Pk("a", Nr), Field("b", St, <<S("d")>>, "pk")>>),
            Struct("td", "C3", <<Pk("a", ListOf(Nr)), [Pk("b", Nr) EXCEPT !.opt = TRUE]>>), Struct("nt", "C4", <<Pk("a", An), Field("b", Opt(Nr), <<None>>, "pk")>>),
            Opt(Nr), Union(<<Nr, ListOf(Nr)>>), An, Colour, <<"set", Nr>>, <<"ddict", St, Nr>>, Ann(Nr, <<>>, << <<"pos", 0>> >>), <<"slice">>, <<"complex">>,
            <<"bytes">>, Lits(<<I(1)>>), No, <<"user", ListOf(Nr), "X1">>, <<"user", <<"dict", St, Nr>>, "X2">> >>
Outer(t) == << t, ListOf(t), DictOfStr(t), <<"tuple", <<t, Nr>>>>, Struct("dc", "C1", <<Pk("a", t), Field("b", Nr, <<I(5)>>, "pk")>>),
               Struct("td", "C5", <<Pk("a", t), [Pk("b", t) EXCEPT !.opt = TRUE]>>), Opt(t), Struct("dc", "C6", <<Field("a", Opt(t), <<None>>, "pk")>>) >>
NestedTypes == FlattenSeq(Over(Outer, Inner))
Leaves == << I(1), S("2"), S("x"), None, Missing, L(<<>>), D(<<>>) >>
Wrap(es) == Over(LAMBDA e : L(<<e>>), es) \o Over(LAMBDA e : L(<<I(1), e>>), es) \o Over(LAMBDA e : D(<< <<S("a"), e>> >>), es)
            \o Over(LAMBDA e : D(<< <<S("a"), I(1)>>, <<S("b"), e>> >>), es) \o Over(LAMBDA e : D(<< <<S("b"), e>>, <<S("a"), L(<<S("3")>>)>> >>), es)
NestedElems == LET one == Leaves \o Wrap(Leaves) IN one \o Chosen(IF Deep THEN 1 ELSE 4, Wrap(SubSeq(one, 8, Len(one)))) \o (IF Deep THEN Chosen(7, Wrap(Wrap(Wrap(Leaves)))) ELSE <<>>)
MissElems == LET one == Wrap(<<Missing, I(1), None>>) IN <<Missing>> \o one \o Wrap(one) \o Chosen(IF Deep THEN 2 ELSE 9, Wrap(Wrap(one)))

-----------------------------------------------------------------------------
Types == CASE What = "U01" -> Plain(PrimTypes) [] What = "U02" -> Plain(UnionTypes) [] What = "U03" -> Plain(StructTypes)
           [] What = "U05" -> Plain(ContainerTypes) [] What = "U06" -> Plain(AnnTypes) [] What = "U07" -> RecTypes [] OTHER -> Plain(NestedTypes)
Elems == CASE What = "U01" -> PrimElems [] What = "U02" -> UnionElems [] What = "U03" -> StructElems
           [] What = "U05" -> ContainerElems [] What = "U06" -> AnnElems [] What = "U07" -> RecElems [] What = "U08" -> NestedElems [] OTHER -> MissElems

(* worked out once *)
ASSUME TLCSet(1, Types) /\ TLCSet(2, Elems)
VARIABLES n, step
vars == <<n, step>>
Init == n \in 0..Len(TLCGet(1)) /\ step = 0
Next == n > 0 /\ step < Len(TLCGet(2)) /\ step' = step + 1 /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
ty == TLCGet(1)[n]
e == TLCGet(2)[step]
Um(t, x) == UM(t, x, <<>>, ty.env)
Out == Um(ty.t, e)
Case == [n |-> n, i |-> step, r |-> IF Out.ok THEN [ok |-> TRUE, v |-> Out.v] ELSE Out]
Emit == CASE n = 0 -> PrintT(ToJson([elems |-> TLCGet(2)]))
          [] step = 0 -> PrintT(ToJson([n |-> n, t |-> ty.t, env |-> ty.env]))
          [] OTHER -> PrintT(ToJson(Case))
Real == n > 0 /\ step > 0

-----------------------------------------------------------------------------
(* Laws *)
RECURSIVE Marked(_)
Marked(v) ==       \* whether the marker of missing values is somewhere in a value
    CASE Tag(v) = "M" -> TRUE
      [] Tag(v) \in {"l", "t", "q", "set", "dq"} -> \E i \in 1..Len(v[2]) : Marked(v[2][i])
      [] Tag(v) \in {"d", "m", "mp", "od", "dd"} -> \E i \in 1..Len(v[2]) : Marked(v[2][i][1]) \/ Marked(v[2][i][2])
      [] Tag(v) \in {"o", "nt"} -> \E i \in 1..Len(v[3]) : Marked(v[3][i][2])
      [] OTHER -> FALSE
NoMarker == Real /\ Out.ok => ~Marked(Out.v)

(* an error is at a place of the element, or at something that is not there but ought to be *)
RECURSIVE Leads(_, _)
Leads(x, at) ==
    IF at = <<>> THEN TRUE
    ELSE IF IsMap(x) THEN
        IF \E i \in 1..Len(Pairs(x)) : KeyText(Pairs(x)[i][1]) = at[1]
        THEN \E i \in 1..Len(Pairs(x)) : KeyText(Pairs(x)[i][1]) = at[1] /\ Leads(Pairs(x)[i][2], Tail(at))
        ELSE TRUE       \* a field without a value, and what it is made of
    ELSE IF IsSeq(x) THEN TRUE      \* by index or by name of field
    ELSE IsMissing(x)
Located == Real /\ ~Out.ok /\ What \in {"U03", "U05", "U08", "U09"} => Leads(e, Out.at)

(* values of a type stay what they are, and what is read from a text is read from it once more *)
Own(t, v) == CASE t = Bl -> Tag(v) = "b" [] t = Nr -> Tag(v) = "i" [] t = Fl -> Tag(v) \in {"f", "finf", "fnan"} [] t = St -> Tag(v) = "s" [] OTHER -> FALSE
Identity == Real /\ Own(ty.t, e) => Out = Ok(e)
Stable == Real /\ Out.ok /\ ty.t \in {Bl, Nr, Fl, St} => Um(ty.t, Out.v) = Out /\ Um(ty.t, Str(PrimText(Out.v))) = Out
Exact == Real /\ Out.ok /\ ty.t = Nr /\ Tag(e) \in {"b", "i", "f"} => NumKey(Out.v) = NumKey(e)

(* a union is its first alternative that accepts *)
Accepting(ts) == { i \in 1..Len(ts) : Um(ts[i], e).ok }
First == Real /\ ty.t[1] = "union" /\ Len(ty.t[2]) > 2 =>
    LET ts == ty.t[2]  ok == Accepting(ts) IN
    IF ok = {} THEN ~Out.ok ELSE Out = Um(ts[CHOOSE i \in ok : \A j \in ok : i <= j], e)
Nested == Real /\ ty.t[1] = "union" /\ Len(ty.t[2]) = 3 /\ ~InSeq(ty.t[2], No) =>
    LET ts == ty.t[2] IN Um(Union(<<Union(<<ts[1], ts[2]>>), ts[3]>>), e) = Out
LastNone == Real /\ ty.t[1] = "union" /\ Len(ty.t[2]) = 2 /\ InSeq(ty.t[2], No) =>
    Out.ok <=> Accepting(ty.t[2]) # {}

(* fields by position are fields by name *)
FieldNames(t) == IF t[1] = "tuple" THEN [i \in 1..Len(t[2]) |-> IndexText(i - 1)] ELSE [i \in 1..Len(t[4]) |-> t[4][i].n]
IsStruct(t) == t[1] \in {"struct", "tuple"}
ByPosition(t) == IsStruct(t) /\ (t[1] = "tuple" \/ \A i \in 1..Len(t[4]) : t[4][i].k = "pk")
Named == Real /\ ByPosition(ty.t) /\ IsSeq(e) /\ Len(Items(e)) <= Len(FieldNames(ty.t)) =>
    Out = Um(ty.t, D([i \in 1..Len(Items(e)) |-> <<Str(FieldNames(ty.t)[i]), Items(e)[i]>>]))
Flipped == Real /\ IsStruct(ty.t) /\ IsMap(e) => Out = Um(ty.t, D(Reverse(Pairs(e))))
(* an explicit marker is the same as no value *)
AsAbsent == Real /\ IsStruct(ty.t) /\ IsMap(e) =>
    LET given == SelectSeq(Pairs(e), LAMBDA p : ~IsMissing(p[2])) IN
    (\A i \in 1..Len(Pairs(e)) : IsMissing(Pairs(e)[i][2]) => InSeq(FieldNames(ty.t), Chars(Pairs(e)[i][1]))) => Out = Um(ty.t, D(given))

(* containers are unmarshaled item by item *)
IsItems(t) == t[1] \in {"list", "seq", "mseq", "vtuple", "deque"}
ItemByItem == Real /\ IsItems(ty.t) /\ IsSeq(e) =>
    LET rs == [i \in 1..Len(Items(e)) |-> Um(ty.t[2], Items(e)[i])] IN
    IF \A i \in 1..Len(rs) : rs[i].ok THEN Out = Ok(<<SeqResult(ty.t[1]), [i \in 1..Len(rs) |-> rs[i].v]>>) ELSE ~Out.ok
Joined == Real /\ IsItems(ty.t) /\ IsSeq(e) =>
    LET r == Um(ty.t, L(Items(e) \o Items(e))) IN r.ok = Out.ok /\ (r.ok => r.v[2] = Out.v[2] \o Out.v[2])
(* classes made from containers hold what the container would *)
AsContainer == Real /\ ty.t[1] = "user" => LET r == Um(ty.t[2], e) IN Out = (IF r.ok THEN Ok(<<"is", ty.t[3], r.v>>) ELSE r)
KeyByKey == Real /\ ty.t[1] \in {"dict", "mmap"} /\ IsMap(e) /\ Out.ok =>
    \A i \in 1..Len(Out.v[2]) : \E p \in 1..Len(Pairs(e)) : Um(ty.t[2], Pairs(e)[p][1]).v = Out.v[2][i][1] /\ Um(ty.t[3], Pairs(e)[p][2]).v = Out.v[2][i][2]

(* annotations are applied one after the other, whatever they are written on *)
InTwo == Real /\ ty.t[1] = "ann" =>
    /\ Len(ty.t[4]) > 1 => LET r == Um(Ann(ty.t[2], ty.t[3], SubSeq(ty.t[4], 1, Len(ty.t[4]) - 1)), e)
                           IN Out = (IF r.ok THEN PostAnn(ty.t[4][Len(ty.t[4])], r.v) ELSE r)
    /\ Len(ty.t[3]) > 1 => LET r == PreAnn(ty.t[3][1], e)
                           IN Out = (IF r.ok THEN Um(Ann(ty.t[2], Tail(ty.t[3]), ty.t[4]), r.v) ELSE r)

(* a recursive type is what it unrolls to *)
RECURSIVE Unroll(_, _)
UnrollAll(ts, k) == [i \in 1..Len(ts) |-> Unroll(ts[i], k)]
Unroll(t, k) ==
    CASE t[1] = "ref" -> IF k = 0 THEN t ELSE Unroll(EnvType(ty.env, t[2]), k - 1)
      [] t[1] \in {"list", "vtuple"} -> <<t[1], Unroll(t[2], k)>>
      [] t[1] = "dict" -> <<"dict", t[2], Unroll(t[3], k)>>
      [] t[1] = "union" -> <<"union", UnrollAll(t[2], k)>>
      [] t[1] = "struct" -> <<"struct", t[2], t[3], [i \in 1..Len(t[4]) |-> [t[4][i] EXCEPT !.t = Unroll(@, k)]]>>
      [] OTHER -> t
Unrolled == Real /\ ty.env # <<>> => Um(Unroll(ty.t, 2), e) = Out
=============================================================================
