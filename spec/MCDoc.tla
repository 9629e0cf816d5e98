-------------------------------- MODULE MCDoc --------------------------------
(***************************************************************************)
(* Every small structure, down to two levels: what is shown is what can be *)
(* set, what is shown can be asked for, and a shown default is what is     *)
(* used.  Each is printed with its documentation and the end of every path *)
(* for the replay.                                                         *)
(***************************************************************************)
EXTENDS Doc, TLC, Json
CONSTANT Few

Fld(n, t, d, k, opt) == [n |-> <<n>>, t |-> t, d |-> d, opt |-> opt, k |-> k, f |-> FALSE, iv |-> FALSE]
IntT == <<"int">>
NoneT == <<"none">>
D1 == <<Str(<<"q">>)>>
(* the fields a structure of a kind may have *)
FieldSets(kind, types) ==
    LET ts == types
    IN {<<>>}
       \cup {<<Fld("a", t, <<>>, "pk", FALSE)>> : t \in ts}
       \cup {<<Fld("a", t, <<>>, "pk", FALSE), Fld("b", u, d, "pk", FALSE)>> :
                t \in ts, u \in (IF Few THEN {IntT} ELSE ts), d \in (IF kind = "td" THEN {<<>>} ELSE {<<>>, D1, <<FromInt(3)>>})}
       \cup (IF kind = "td" THEN {<<Fld("a", t, <<>>, "pk", TRUE), Fld("b", t, <<>>, "pk", FALSE)>> : t \in ts} ELSE {})
       \cup (IF kind = "dc" THEN {<<Fld("a", t, <<>>, "ko", FALSE)>> : t \in ts} ELSE {})
       \cup (IF kind = "fn"
             THEN {<<Fld("a", t, <<>>, "po", FALSE), Fld("b", IntT, <<>>, "va", FALSE)>> : t \in ts}
                  \cup {<<Fld("a", t, <<>>, "ko", FALSE), Fld("b", IntT, <<>>, "vk", FALSE)>> : t \in ts}
             ELSE {})
Wraps(t) == {t, <<"union", <<t, NoneT>>>>, <<"union", <<t, IntT>>>>, <<"list", t>>, <<"dict", <<"str">>, t>>, <<"ann", t, <<>>, <<>>>>,
             <<"tuple", <<t>>>>, <<"tvar", <<t>>>>}
Kinds == {"dc", "nt", "td", "fn"}
Leaves == {IntT, <<"union", <<IntT, NoneT>>>>, <<"list", IntT>>}
Inner == {<<"struct", k, <<"I">>, fs>> : k \in {"dc", "td"}, fs \in {<<>>, <<Fld("b", IntT, <<>>, "pk", FALSE)>>}}
         \cup {<<"struct", "fn", <<"I">>, <<Fld("b", <<"tuple", <<IntT>>>>, D1, "pk", FALSE)>>>>}
Middle == Leaves \cup UNION {Wraps(t) : t \in Inner}
Types == UNION { {<<"struct", k, <<"T">>, fs>> : fs \in FieldSets(k, Middle)} : k \in Kinds }

Keys == {<<"a">>, <<"b">>, <<"0">>, <<"z">>}
Paths == {<<k>> : k \in Keys} \cup {<<k, l>> : k, l \in Keys} \cup {<<k, l, <<"0">>>> : k, l \in Keys}
         \cup {<<k, <<"0">>, l>> : k, l \in Keys}

VARIABLES t, step
Init == t \in Types /\ step = 0
PathCase(p) == LET r == Sel(t, Fld("a", t, <<>>, "pk", FALSE), p, <<>>, <<>>)
               IN [p |-> p, ok |-> r.ok, at |-> r.at,
                   doc |-> IF r.ok THEN <<DocOf(r.t, FieldDefault(r.f), 2, <<>>, TRUE)>> ELSE <<>>]
Next == /\ step = 0 /\ step' = 1 /\ t' = t
        /\ PrintT(ToJson([t |-> t, docs |-> [d \in 1..4 |-> DocOf(t, <<>>, d - 1, <<>>, TRUE)],
                          paths |-> SetToSeq({PathCase(p) : p \in Paths})]))
Spec == Init /\ [][Next]_<<t, step>>

-----------------------------------------------------------------------------
Deep == DocOf(t, <<>>, 6, <<>>, TRUE)
(* an element with a value for every field that can be named *)
RECURSIVE Sample(_)
Sample(u) ==
    LET p == Peel(u, <<>>)
    IN CASE p[1] = "int" -> FromInt(7)
         [] p[1] = "union" -> Sample(p[2][1])
         [] p[1] = "list" -> <<"l", <<Sample(p[2])>>>>
         [] p[1] = "dict" -> <<"d", << <<Str(<<"k">>), Sample(p[3])>> >>>>
         [] p[1] = "tuple" -> <<"d", [i \in 1..Len(p[2]) |-> <<Str(IndexText(i - 1)), Sample(p[2][i])>>]>>
         [] OTHER -> LET fs == SelectSeq(p[4], LAMBDA f : f.k \notin {"va", "vk"})
                     IN <<"d", [i \in 1..Len(fs) |-> <<Str(fs[i].n), Sample(fs[i].t)>>]>>
Free == \E i \in 1..Len(t[4]) : t[4][i].k = "vk"
Whole == Sample(t)
IsShown(n) == \E i \in 1..Len(Deep.f[1]) : Deep.f[1][i][1] = n

(* exactly what is shown can be set *)
SetIffShown ==
    /\ UM(t, Whole, <<>>, <<>>).ok
    /\ \A n \in Keys : ~Free =>
        LET with == <<"d", DictPut(Whole[2], Str(n), FromInt(7))>>
            r == UM(t, with, <<>>, <<>>)
        IN ~IsShown(n) <=> (~r.ok /\ ~r.miss /\ r.at = <<>>)
(* a value that is not given is the default that is shown *)
DefaultsAreShown ==
    \A i \in 1..Len(t[4]) :
        LET f == t[4][i]
            d == Deep.f[1][i][2].d
            out == [q \in 1..Len(Whole[2]) |-> Whole[2][q]]
            less == <<"d", SelectSeq(out, LAMBDA q : q[1] # Str(f.n))>>
            r == UM(t, less, <<>>, <<>>)
            put == UM(t, <<"d", DictPut(less[2], Str(f.n), Str(d[1]))>>, <<>>, <<>>)
        IN f.k \notin {"va", "vk"} =>
            /\ d # <<>> => r.ok
            /\ (d = <<>> /\ Peel(f.t, <<>>) = IntT) => (~r.ok /\ r.miss /\ r.at = <<f.n>>)
            (* giving the text that is shown gives the default *)
            /\ (d # <<>> /\ d # << <<>> >> /\ Peel(f.t, <<>>) = IntT /\ put.ok) => Norm(put.v) = Norm(r.v)
(* every shown path can be asked for and shows what it showed *)
RECURSIVE PathsOf(_, _)
PathsOf(d, prefix) ==
    IF d.f = <<>> THEN {}
    ELSE UNION { {<<Append(prefix, d.f[1][i][1]), d.f[1][i][2]>>} \cup PathsOf(d.f[1][i][2], Append(prefix, d.f[1][i][1]))
                 : i \in 1..Len(d.f[1]) }
ShownCanBeAskedFor ==
    \A q \in PathsOf(Deep, <<>>) :
        LET r == Sel(t, Fld("a", t, <<>>, "pk", FALSE), q[1], <<>>, <<>>)
        IN r.ok /\ (q[2].f # <<>> => DocOf(r.t, FieldDefault(r.f), 6 - Len(q[1]), <<>>, TRUE).f = q[2].f)
(* an error names a path that can be asked for, or that ends in nothing that has paths *)
ErrorsNamePrefixes ==
    \A p \in Paths :
        LET r == Sel(t, Fld("a", t, <<>>, "pk", FALSE), p, <<>>, <<>>)
            s == Sel(t, Fld("a", t, <<>>, "pk", FALSE), r.at, <<>>, <<>>)
        IN IF r.ok THEN r.at = p ELSE s.ok /\ r.at = SubSeq(p, 1, Len(r.at)) /\ Len(r.at) < Len(p)
=============================================================================
