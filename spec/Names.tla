-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* Namespaces (marsh.namespaces): the state is the sequence of them in the  *)
(* order they were made, each with a base class and <<name, class>> pairs.  *)
(* Classes: [c, up its superclasses and itself, fields] with fields         *)
(* [f name, t type, d <<default>> or <<>>].  Types: <<"int">>,              *)
(* <<"cls", c>>, <<"list", t>>, <<"opt", t>>, <<"union", ts>>.  Values:     *)
(* <<"int", n>>, <<"str", s>>, <<"none">>, <<"seq", vs>>, <<"map", pairs>>  *)
(* and, of results only, <<"obj", c, pairs>>.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Class(k, c) == k.classes[CHOOSE i \in 1..Len(k.classes) : k.classes[i].c = c]
IsSub(k, c, d) == \E i \in 1..Len(Class(k, c).up) : Class(k, c).up[i] = d
Find(pairs, key) == {i \in 1..Len(pairs) : pairs[i][1] = key}
Get(pairs, key) == pairs[CHOOSE i \in Find(pairs, key) : TRUE][2]
Without(pairs, key) == SelectSeq(pairs, LAMBDA p : p[1] # key)
At(s, n) == {i \in 1..Len(s) : s[i].n = n}
Space(s, n) == s[CHOOSE i \in At(s, n) : TRUE]

Err == <<"UnmarshalError">>
(* All components a class stands for: those below it, of all namespaces, the oldest namespace first. *)
Candidates(k, s, c) ==
    FlattenSeq([i \in 1..Len(s) |-> SelectSeq(s[i].comps, LAMBDA p : IsSub(k, p[2], c))])
(* A class takes a name if it is in the hierarchy of a namespace. *)
Named(k, s, c) == \E i \in 1..Len(s) : IsSub(k, c, s[i].base)

RECURSIVE U(_, _, _, _), Construct(_, _, _, _), Fields(_, _, _, _), Items(_, _, _, _), FirstOf(_, _, _, _)
(* values of the fields: given as <<element>>, or <<>> where the default is used *)
Fields(k, s, fields, given) ==
    IF fields = <<>> THEN <<"ok", <<>>>>
    ELSE LET g == Head(given)
             v == IF g # <<>> THEN U(k, s, Head(fields).t, g[1])
                  ELSE IF Head(fields).d # <<>> THEN <<"ok", Head(fields).d[1]>> ELSE Err
             rest == IF v = Err THEN Err ELSE Fields(k, s, Tail(fields), Tail(given))
         IN IF v = Err \/ rest = Err THEN Err
            ELSE <<"ok", <<<<Head(fields).f, v[2]>>>> \o rest[2]>>
Construct(k, s, c, e) ==
    LET fields == Class(k, c).fields
        known == \A i \in 1..Len(e[2]) : \E j \in 1..Len(fields) : fields[j].f = e[2][i][1]
        given == IF e[1] = "map"
                 THEN [i \in 1..Len(fields) |->
                         IF Find(e[2], fields[i].f) = {} \/ Get(e[2], fields[i].f) = <<"str", "???">>
                         THEN <<>> ELSE <<Get(e[2], fields[i].f)>>]
                 ELSE [i \in 1..Len(fields) |-> IF i > Len(e[2]) THEN <<>> ELSE <<e[2][i]>>]
        r == Fields(k, s, fields, given)
    IN IF e[1] \notin {"map", "seq"} THEN Err
       ELSE IF (e[1] = "map" /\ ~known) \/ (e[1] = "seq" /\ Len(e[2]) > Len(fields)) THEN Err
       ELSE IF r = Err THEN Err ELSE <<"ok", <<"obj", c, r[2]>>>>
Items(k, s, t, es) ==
    IF es = <<>> THEN <<"ok", <<>>>>
    ELSE LET v == U(k, s, t, Head(es))
             rest == IF v = Err THEN Err ELSE Items(k, s, t, Tail(es))
         IN IF v = Err \/ rest = Err THEN Err ELSE <<"ok", <<v[2]>> \o rest[2]>>
FirstOf(k, s, ts, e) ==
    IF ts = <<>> THEN Err
    ELSE LET v == U(k, s, Head(ts), e) IN IF v # Err THEN v ELSE FirstOf(k, s, Tail(ts), e)
U(k, s, t, e) ==
    CASE t[1] = "int" -> IF e[1] = "int" THEN <<"ok", e>> ELSE Err
      [] t[1] = "list" -> IF e[1] # "seq" THEN Err
                          ELSE LET r == Items(k, s, t[2], e[2])
                               IN IF r = Err THEN Err ELSE <<"ok", <<"seq", r[2]>>>>
      [] t[1] = "opt" -> IF e[1] = "none" THEN <<"ok", e>> ELSE U(k, s, t[2], e)
      [] t[1] = "union" -> FirstOf(k, s, t[2], e)
      [] OTHER ->
           LET name == IF e[1] = "map" /\ Find(e[2], "name") # {} THEN <<Get(e[2], "name")>> ELSE <<>>
               bare == <<e[1], Without(e[2], "name")>>
               cs == IF name # <<>> /\ name[1][1] = "str" THEN
                        SelectSeq(Candidates(k, s, t[2]), LAMBDA p : p[1] = name[1][2])
                     ELSE <<>>
           IN IF ~Named(k, s, t[2]) \/ name = <<>> THEN Construct(k, s, t[2], e)
              ELSE IF name[1] = <<"str", "???">> THEN Construct(k, s, t[2], bare)
              ELSE IF cs = <<>> THEN Err
              ELSE Construct(k, s, cs[1][2], bare)

(* the name of a class: of the newest namespace that has it, the first it was registered by *)
RECURSIVE NameOf(_, _, _)
NameOf(k, s, c) ==
    IF s = <<>> THEN <<>>
    ELSE LET comps == s[Len(s)].comps
             here == {i \in 1..Len(comps) : comps[i][2] = c}
         IN IF here # {} THEN <<comps[CHOOSE i \in here : \A j \in here : i <= j][1]>>
            ELSE NameOf(k, SubSeq(s, 1, Len(s) - 1), c)
MErr == <<"MarshalError">>
RECURSIVE M(_, _, _), MAll(_, _, _)
MAll(k, s, vs) ==
    IF vs = <<>> THEN <<"ok", <<>>>>
    ELSE LET v == M(k, s, Head(vs))
             rest == MAll(k, s, Tail(vs))
         IN IF v = MErr \/ rest = MErr THEN MErr ELSE <<"ok", <<v[2]>> \o rest[2]>>
M(k, s, v) ==
    CASE v[1] = "seq" -> LET r == MAll(k, s, v[2]) IN IF r = MErr THEN MErr ELSE <<"ok", <<"seq", r[2]>>>>
      [] v[1] = "obj" ->
           LET keys == SelectSeq(k.keys, LAMBDA x : Find(v[3], x) # {})
               r == MAll(k, s, [i \in 1..Len(keys) |-> Get(v[3], keys[i])])
               name == NameOf(k, s, v[2])
           IN IF r = MErr \/ (name # <<>> /\ Find(v[3], "name") # {}) THEN MErr
              ELSE <<"ok", <<"map", [i \in 1..Len(keys) |-> <<keys[i], r[2][i]>>]
                                    \o (IF name = <<>> THEN <<>> ELSE << <<"name", <<"str", name[1]>>>> >>)>>>>
      [] OTHER -> <<"ok", v>>

(* k the classes, s the namespaces *)
One(s, out) == { [s |-> s, out |-> out] }
Register(s, o) ==
    [i \in 1..Len(s) |->
       IF s[i].n # o.n THEN s[i]
       ELSE LET old == Find(s[i].comps, o.name)
            IN [s[i] EXCEPT !.comps = IF old = {} THEN Append(@, <<o.name, o.c>>)
                                      ELSE [@ EXCEPT ![CHOOSE j \in old : TRUE] = <<o.name, o.c>>]]]
Do(k, s, o) ==
    CASE o.op = "new" -> IF At(s, o.n) # {} THEN One(s, <<"MarshError">>)
                         ELSE One(Append(s, [n |-> o.n, base |-> o.c, comps |-> <<>>]), <<"ok">>)
      [] o.op = "del" -> IF At(s, o.n) = {} THEN One(s, <<"KeyError">>)
                         ELSE One(SelectSeq(s, LAMBDA x : x.n # o.n), <<"ok">>)
      [] o.op \in {"reg", "build", "has", "len"} /\ At(s, o.n) = {} -> One(s, <<"KeyError">>)
      [] o.op = "reg" ->
           One(IF (Find(Space(s, o.n).comps, o.name) # {} /\ ~o.replace)
                  \/ ~IsSub(k, o.c, Space(s, o.n).base) THEN s ELSE Register(s, o),
               IF Find(Space(s, o.n).comps, o.name) # {} /\ ~o.replace THEN <<"MarshError">>
               ELSE IF ~IsSub(k, o.c, Space(s, o.n).base) THEN <<"ValueError">> ELSE <<"ok">>)
      [] o.op = "build" ->
           One(s, IF Find(Space(s, o.n).comps, o.name) = {} THEN Err
                  ELSE Construct(k, s, Get(Space(s, o.n).comps, o.name), o.e))
      [] o.op = "has" -> One(s, <<"has", Find(Space(s, o.n).comps, o.name) # {}>>)
      [] o.op = "len" -> One(s, <<"len", Len(Space(s, o.n).comps)>>)
      [] o.op = "find" -> One(s, <<"name", NameOf(k, s, o.c)>>)
      [] o.op = "marshal" -> One(s, M(k, s, o.v))
      [] OTHER -> One(s, U(k, s, o.t, o.e))

(* Laws *)
NoErr(r) == r # Err /\ r # MErr
(* a component is found again by what it is marshaled to, unless another namespace has its name *)
Unique(s, n) == \A i, j \in 1..Len(s) : Find(s[i].comps, n) # {} /\ Find(s[j].comps, n) # {} => i = j
RECURSIVE Clear(_, _, _, _)
Clear(k, s, t, v) ==
    CASE v[1] = "obj" ->
           LET c == IF t[1] = "opt" THEN t[2][2] ELSE t[2]
               name == NameOf(k, s, v[2])
               fields == Class(k, v[2]).fields
           IN /\ IF name = <<>> THEN c = v[2] ELSE Unique(s, name[1]) /\ IsSub(k, v[2], c) /\ Named(k, s, c)
              /\ \A i \in 1..Len(fields) : Clear(k, s, fields[i].t, Get(v[3], fields[i].f))
      [] OTHER -> TRUE
FoundAgain(k, s, c, v) ==
    LET m == M(k, s, v)
    IN NoErr(m) /\ Clear(k, s, <<"cls", c>>, v) => U(k, s, <<"cls", c>>, m[2]) = <<"ok", v>>
(* a name stands for what was registered last for it *)
LastOne(k, s, hist) ==
    \A i \in 1..Len(s), j \in 1..Len(hist) :
      (/\ hist[j].op = "reg" /\ hist[j].out = <<"ok">> /\ hist[j].n = s[i].n
       /\ \A l \in j + 1..Len(hist) : hist[l].op \in {"del", "reg"} =>
            (hist[l].n # s[i].n \/ (hist[l].op = "reg" /\ (hist[l].name # hist[j].name \/ hist[l].out # <<"ok">>))))
        => Find(s[i].comps, hist[j].name) # {} /\ Get(s[i].comps, hist[j].name) = hist[j].c
=============================================================================
