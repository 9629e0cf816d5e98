------------------------------- MODULE MCBind -------------------------------
(***************************************************************************)
(* Every signature of a few parameters with every kind of call: values at  *)
(* the call site, by position and by name, and an element that is absent,  *)
(* a sequence or a mapping.                                                *)
(***************************************************************************)
EXTENDS Unmarshal, TLC, Json
CONSTANTS MaxNamed, MaxSite

Names == <<"a", "b", "c">>
Kinds == {"po", "pk", "ko"}
Rank(k) == CASE k = "po" -> 1 [] k = "pk" -> 2 [] k = "va" -> 3 [] k = "ko" -> 4 [] OTHER -> 5
Field(n, k, d) == [n |-> <<n>>, t |-> <<"int">>, k |-> k, opt |-> FALSE, d |-> d]
Default(i) == <<FromInt(90 + i)>>

(* n named parameters, whether there are variable ones *)
Layouts(n) ==
    {ps \in [1..n -> Kinds \X BOOLEAN] :
        /\ \A i \in 1..n - 1 : Rank(ps[i][1]) <= Rank(ps[i + 1][1])
        /\ \A i, j \in 1..n : (i < j /\ ps[j][1] # "ko" /\ ps[i][2]) => ps[j][2]}
NamedFields(ps, n) ==
    [i \in 1..n |-> Field(Names[i], ps[i][1], IF ps[i][2] THEN Default(i) ELSE <<>>)]
WithVar(fs, va, vk) ==
    SelectSeq(fs, LAMBDA f : f.k # "ko")
    \o (IF va THEN <<Field("s", "va", <<>>)>> ELSE <<>>)
    \o SelectSeq(fs, LAMBDA f : f.k = "ko")
    \o (IF vk THEN <<Field("t", "vk", <<>>)>> ELSE <<>>)
Signatures ==
    UNION { {WithVar(NamedFields(ps, n), va, vk) : ps \in Layouts(n), va \in BOOLEAN, vk \in BOOLEAN}
            : n \in 0..MaxNamed }

KeyNames == SubSeq(Names, 1, MaxNamed) \o <<"z">>
Subsets == {S \in SUBSET (1..Len(KeyNames)) : Cardinality(S) <= MaxSite}
PairsFor(S, base) ==
    LET ix == SetToSortSeq(S, <) IN [j \in 1..Len(ix) |-> <<Str(<<KeyNames[ix[j]]>>), FromInt(base + ix[j])>>]
Numbers(n, base) == [i \in 1..n |-> FromInt(base + i)]
Elements ==
    {Missing} \cup {<<"t", Numbers(n, 10)>> : n \in 0..MaxNamed + 1}
    \cup {<<"d", PairsFor(S, 20)>> : S \in SUBSET (1..Len(KeyNames))}
    \cup {<<"d", << <<Str(<<"a">>), Missing>> >> >>, <<"t", <<Missing>> >>, <<"t", <<None>> >>, FromInt(1)}
Sites == [ca : {Numbers(n, 50) : n \in 0..MaxNamed + 1}, ck : {PairsFor(S, 60) : S \in Subsets}]

VARIABLES sig, step
Init == sig \in Signatures /\ step = 0
Call(fields, c, e) ==
    LET r == Bind(fields, e, c.ca, c.ck, <<>>)
    IN IF SiteBad(fields, c.ca, c.ck) THEN [ok |-> FALSE, site |-> TRUE, miss |-> FALSE, at |-> <<>>, over |-> r.ok, v |-> <<>>]
       ELSE IF r.ok THEN [ok |-> TRUE, site |-> FALSE, miss |-> FALSE, at |-> <<>>, over |-> TRUE, v |-> r.v]
       ELSE [ok |-> FALSE, site |-> FALSE, miss |-> r.miss, at |-> r.at, over |-> FALSE, v |-> <<>>]
Cases == {[c |-> c, e |-> e, r |-> Call(sig, c, e)] : c \in Sites, e \in Elements}
Next == /\ step = 0
        /\ step' = 1 /\ sig' = sig
        /\ PrintT(ToJson([sig |-> sig, cases |-> SetToSeq(Cases)]))
Spec == Init /\ [][Next]_<<sig, step>>

-----------------------------------------------------------------------------
(* What python binds: position i to the i-th positional parameter, the rest*)
(* to the variable one; names to the parameter of that name, others to the *)
(* variable one; what is left to defaults.                                 *)
PyArg(fields, i, ca, ck) ==
    LET f == fields[i]
        at == Cardinality({j \in 1..i : fields[j].k \in {"po", "pk"}})
        npos == Len(Positional(fields))
        named == {Str(fields[j].n) : j \in {j \in 1..Len(fields) : fields[j].k \in Kinds}}
    IN CASE f.k = "va" -> <<"t", SubSeq(ca, npos + 1, Len(ca))>>
         [] f.k = "vk" -> <<"d", SelectSeq(ck, LAMBDA p : p[1] \notin named)>>
         [] f.k # "ko" /\ at <= Len(ca) -> ca[at]
         [] HasKey(<<"d", ck>>, Str(f.n)) -> Get(<<"d", ck>>, Str(f.n))
         [] f.d # <<>> -> f.d[1]
         [] OTHER -> Absent
PyBind(fields, ca, ck) == [i \in 1..Len(fields) |-> <<fields[i].n, PyArg(fields, i, ca, ck)>>]
AllBound(b) == \A i \in 1..Len(b) : b[i][2] # Absent

(* Without an element the callable gets what python would bind. *)
LikePython ==
    \A c \in Sites : ~SiteBad(sig, c.ca, c.ck) =>
        LET r == Bind(sig, Missing, c.ca, c.ck, <<>>)
            p == PyBind(sig, c.ca, c.ck)
        IN IF AllBound(p) THEN r.ok /\ r.v = p ELSE ~r.ok /\ r.miss
(* A mapping is like naming these values as well, and wins. *)
NamedWin ==
    \A c \in Sites, S \in SUBSET (1..Len(KeyNames)) : ~SiteBad(sig, c.ca, c.ck) =>
        LET e == PairsFor(S, 20)
            r == Bind(sig, <<"d", e>>, c.ca, c.ck, <<>>)
        IN r.ok => \A i \in 1..Len(sig) :
             CASE sig[i].k = "va" -> r.v[i][2] = PyArg(sig, i, c.ca, c.ck)
               [] sig[i].k = "vk" -> \A p \in Range(r.v[i][2][2]) :
                      p \in Range(e) \/ (p \in Range(c.ck) /\ ~HasKey(<<"d", e>>, p[1]))
               [] HasKey(<<"d", e>>, Str(sig[i].n)) -> r.v[i][2] = Get(<<"d", e>>, Str(sig[i].n))
               [] OTHER -> r.v[i][2] = PyArg(sig, i, c.ca, c.ck)
(* A sequence takes the first positions and is never lost. *)
ItemsWin ==
    \A c \in Sites, n \in 0..MaxNamed + 1 : ~SiteBad(sig, c.ca, c.ck) =>
        LET r == Bind(sig, <<"t", Numbers(n, 10)>>, c.ca, c.ck, <<>>)
            npos == Len(Positional(sig))
        IN r.ok => /\ n <= npos \/ \E i \in 1..Len(sig) : sig[i].k = "va"
                   /\ \A i \in 1..MinOf(n, npos) : r.v[i][2] = FromInt(10 + i)
=============================================================================
