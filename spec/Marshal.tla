------------------------------ MODULE Marshal ------------------------------
(***************************************************************************)
(* What marshaling a value gives, and which values are promised to come    *)
(* back when the element is unmarshaled to their type.                     *)
(***************************************************************************)
EXTENDS Unmarshal

(* Keys become text. *)
RECURSIVE M(_)
MKey(k) == LET e == M(k) IN Str(IF IsNone(e) THEN KeyText(None) ELSE PrimText(e))
MSeq(s) == <<"t", [i \in 1..Len(s) |-> M(s[i])]>>
MPairs(ps) == <<"d", DictOf([i \in 1..Len(ps) |-> <<MKey(ps[i][1]), M(ps[i][2])>>])>>
MFields(fs) == <<"d", [i \in 1..Len(fs) |-> <<Str(fs[i][1]), M(fs[i][2])>>]>>
RealText == <<"r","e","a","l">>
ImagText == <<"i","m","a","g">>
(* levels without a name are numbers *)
LevelElement(l) ==
    LET Named == {i \in 1..Len(Levels) : FromInt(Levels[i][2]) = l /\ Levels[i][1] \notin
                    {<<"F","A","T","A","L">>, <<"W","A","R","N">>}}
    IN IF Named = {} THEN l ELSE Str(Levels[CHOOSE i \in Named : TRUE][1])
M(v) ==
    CASE Tag(v) = "is" -> M(v[3])
      [] Tag(v) \in {"l", "t", "q", "dq", "set"} -> MSeq(v[2])
      [] Tag(v) \in {"d", "m", "mp", "od", "dd"} -> MPairs(v[2])
      [] Tag(v) \in {"o", "nt"} -> MFields(v[3])
      [] Tag(v) = "e" -> Str(v[3])
      [] Tag(v) = "by" -> Str(B64Text(v[2]))
      [] Tag(v) \in {"dt", "day", "tm"} -> Str(v[2])
      [] Tag(v) = "lg" ->
           <<"d", << <<Str(NameText), Str(v[2])>> >>
                  \o (IF v[3] = Zero THEN <<>> ELSE << <<Str(LevelText), LevelElement(v[3])>> >>)>>
      [] Tag(v) = "cx" ->
           IF v[3][1] = "f" /\ v[3][3] = <<"0">> THEN v[2]
           ELSE <<"d", << <<Str(RealText), v[2]>>, <<Str(ImagText), v[3]>> >> >>
      [] Tag(v) = "sl" ->
           <<"d", << <<Str(<<"s","t","a","r","t">>), v[2]>>, <<Str(<<"s","t","o","p">>), v[3]>>,
                     <<Str(<<"s","t","e","p">>), v[4]>> >> >>
      [] OTHER -> v

RECURSIVE JsonLike(_)
JsonLike(e) ==
    CASE Tag(e) = "t" -> \A i \in 1..Len(e[2]) : JsonLike(e[2][i])
      [] Tag(e) = "d" -> /\ \A i \in 1..Len(e[2]) : IsStr(e[2][i][1]) /\ JsonLike(e[2][i][2])
                         /\ \A i, j \in 1..Len(e[2]) : e[2][i][1] = e[2][j][1] => i = j
      [] OTHER -> Tag(e) \in {"N", "b", "i", "f", "finf", "fnan", "s", "M"}

(* default dicts are equal whatever their factory is *)
RECURSIVE Same(_)
SameSeq(s) == [i \in 1..Len(s) |-> Same(s[i])]
SamePairs(ps) == [i \in 1..Len(ps) |-> <<ps[i][1], Same(ps[i][2])>>]
Same(v) ==
    CASE Tag(v) \in {"l", "t", "q", "dq"} -> <<Tag(v), SameSeq(v[2])>>
      [] Tag(v) \in {"d", "m", "mp", "od"} -> <<Tag(v), SamePairs(v[2])>>
      [] Tag(v) = "dd" -> <<"dd", SamePairs(v[2]), <<"err">> >>
      [] Tag(v) = "is" -> <<"is", v[2], Same(v[3])>>
      [] Tag(v) \in {"o", "nt"} -> <<Tag(v), v[2], SamePairs(v[3])>>
      [] OTHER -> v
Equal(v, w) == Norm(Same(v)) = Norm(Same(w))

RECURSIVE Safe(_, _, _)
Accepts(t, v, env) == UM(t, M(v), <<>>, env).ok
FirstSafe(ts, v, env) ==
    \E i \in 1..Len(ts) : Safe(ts[i], v, env) /\ \A j \in 1..i - 1 : ~Accepts(ts[j], v, env)
KeySafe(kt, k, env) ==
    LET r == UM(kt, MKey(k), <<>>, env) IN r.ok /\ Equal(r.v, k) /\ Hashable(k)
SafeFields(fields, vs, env) ==
    /\ Len(vs) = Len(fields)
    /\ \A i \in 1..Len(fields) : vs[i][1] = fields[i].n /\ Safe(fields[i].t, vs[i][2], env)
Safe(t, v, env) ==
    LET tag == t[1] IN
    CASE tag = "bool" -> Tag(v) = "b" [] tag = "int" -> Tag(v) = "i"
      [] tag = "float" -> Tag(v) \in {"f", "finf", "fnan"}
      [] tag = "str" -> Tag(v) = "s" [] tag = "none" -> IsNone(v)
      [] tag = "sub" -> Tag(v) = "is" /\ v[2] = t[3] /\ Safe(<<t[2]>>, v[3], env)
      [] tag = "user" -> Tag(v) = "is" /\ v[2] = t[3] /\ Safe(t[2], v[3], env)
      [] tag = "any" -> JsonLike(v) /\ ~HasMissing(v)
      [] tag = "bytes" -> Tag(v) = "by" [] tag = "complex" -> Tag(v) = "cx"
      [] tag = "slice" -> Tag(v) = "sl" [] tag = "dtm" -> Tag(v) = "dt"
      [] tag = "log" -> Tag(v) = "lg"
      [] tag \in {"list", "seq", "mseq", "vtuple", "set", "deque"} ->
           Tag(v) = SeqResult(tag) /\ \A i \in 1..Len(v[2]) : Safe(t[2], v[2][i], env)
      [] tag \in {"dict", "map", "mmap", "odict", "ddict"} ->
           /\ Tag(v) = MapResult(tag)
           /\ \A i \in 1..Len(v[2]) : KeySafe(t[2], v[2][i][1], env) /\ Safe(t[3], v[2][i][2], env)
           /\ \A i, j \in 1..Len(v[2]) : MKey(v[2][i][1]) = MKey(v[2][j][1]) => i = j
      [] tag = "tuple" -> /\ Tag(v) = "t" /\ Len(v[2]) = Len(t[2])
                          /\ \A i \in 1..Len(t[2]) : Safe(t[2][i], v[2][i], env)
      [] tag = "union" -> IF Len(t[2]) = 2 /\ IsNone(v) /\ \E i \in 1..2 : IsNoneType(t[2][i])
                          THEN LET o == IF IsNoneType(t[2][1]) THEN t[2][2] ELSE t[2][1]
                                   r == UM(o, None, <<>>, env)
                               IN ~r.ok \/ r.v = None
                          ELSE IF Len(t[2]) = 2 /\ \E i \in 1..2 : IsNoneType(t[2][i])
                          THEN Safe(IF IsNoneType(t[2][1]) THEN t[2][2] ELSE t[2][1], v, env)
                          ELSE FirstSafe(t[2], v, env)
      [] tag = "tvar" -> IF Len(t[2]) = 1 THEN Safe(t[2][1], v, env) ELSE FirstSafe(t[2], v, env)
      [] tag = "proto" -> FirstSafe(t[2], v, env)
      [] tag = "lit" -> \E i \in 1..Len(t[2]) :
                          /\ t[2][i] = v /\ \A j \in 1..i - 1 : ~UMLiteral(t[2][j], M(v), env).ok
      [] tag = "enum" -> Tag(v) = "e" /\ v[2] = t[2]
      [] tag = "ann" -> /\ t[3] = <<>> /\ Safe(t[2], v, env)
                        /\ LET r == Chain(PostAnn, t[4], v) IN r.ok /\ r.v = v
      [] tag = "ref" -> Safe(EnvType(env, t[2]), v, env)
      [] tag = "struct" /\ t[2] = "td" ->
           /\ Tag(v) = "d"
           /\ \A i \in 1..Len(v[2]) : \E j \in 1..Len(t[4]) :
                Str(t[4][j].n) = v[2][i][1] /\ Safe(t[4][j].t, v[2][i][2], env)
           /\ \A j \in 1..Len(t[4]) :
                \/ HasKey(v, Str(t[4][j].n))
                \/ (t[4][j].opt /\ UM(t[4][j].t, Missing, <<Absent>>, env) = Ok(Absent))
           /\ LET in == SelectSeq(t[4], LAMBDA f : HasKey(v, Str(f.n)))
              IN [i \in 1..Len(in) |-> Str(in[i].n)] = KeySeq(v)
      [] tag = "struct" -> Tag(v) \in {"o", "nt"} /\ v[2] = t[3] /\ SafeFields(t[4], v[3], env)
      [] OTHER -> FALSE

(* The law of round trips. *)
RoundTrips(t, v, env) ==
    Safe(t, v, env) => LET r == UM(t, M(v), <<>>, env) IN r.ok /\ Equal(r.v, v)
=============================================================================
