------------------------------- MODULE MCConfig -------------------------------
(* All histories of a few operations on small file systems. *)
EXTENDS Config, TLC, Json
CONSTANTS Depth

D == <<"d">>
JSON == <<".","j","s","o","n">>
YML == <<".","y","m","l">>
CFG == <<".","c","f","g">>
Known == { JSON, <<".","y","a","m","l">>, YML }
Y1 == <<".","Y","M","L">>
Map(k, v) == <<"d", << <<<<"s", k>>, v>> >>>>
One1 == <<"i", FALSE, <<"1">>>>
Ref == <<"s", <<"$","{","b","}">>>>
E1 == <<"d", << <<<<"s", <<"a">>>>, Ref>>, <<<<"s", <<"b">>>>, One1>> >>>>
E2 == <<"d", << <<<<"s", <<"b">>>>, <<"t", <<One1>>>>>>, <<MetaKey, Ref>> >>>>
E3 == <<"t", <<One1, <<"N">>>>>>
Elements == {E1, E2, E3}
File(e) == <<"file", e>>
Put1(p, n) == [op |-> "put", path |-> p, node |-> n]
A(ext) == <<"a">> \o ext
Puts == { Put1(<<A(JSON)>>, File(E1)), Put1(<<A(Y1)>>, File(E2)), Put1(<<D, A(YML)>>, File(E3)), Put1(<<D, A(YML)>>, <<"junk">>),
          Put1(<<A(CFG)>>, File(E2)), Put1(<<D, <<".">> \o A(JSON)>>, File(E1)), Put1(<<D, A(JSON)>>, File(E2)),
          Put1(<<A(JSON) \o JSON>>, File(E3)) }
Changes == Puts \cup { [op |-> "rm", path |-> <<A(JSON)>>], [op |-> "cd", path |-> <<D>>], [op |-> "ext", ext |-> CFG],
                       [op |-> "write", name |-> A(JSON), e |-> E3], [op |-> "write", name |-> <<"/">> \o A(YML), e |-> E1],
                       [op |-> "write", name |-> A(CFG), e |-> E2], [op |-> "write", name |-> <<"a">>, e |-> E2],
                       [op |-> "write", name |-> <<"d">>, e |-> E3] }
Names == { <<"a">>, A(JSON), <<"/","a">>, <<"d","/","a">>, <<"d","/",".","a">>, <<".","a">>, A(YML), <<"a",".","j">>, <<>>, <<"/", "d", "/", "d">>,
           A(CFG) }
Ld(names, root, resolve, keep, concat) ==
    [op |-> "load", names |-> names, root |-> root, resolve |-> resolve, keep |-> keep, concat |-> concat]
Looks == { [op |-> "find", name |-> n] : n \in Names }
         \cup { Ld(<<n>>, <<>>, TRUE, FALSE, FALSE) : n \in Names }
         \cup { Ld(<<<<"a">>>>, <<"/", "d">>, r, k, FALSE) : r \in BOOLEAN, k \in BOOLEAN }
         \cup { Ld(<<<<"/","a">>, <<"d","/","a">>>>, <<>>, r, TRUE, c) : r \in BOOLEAN, c \in BOOLEAN }
         \cup { [op |-> "tree", name |-> n] : n \in {<<"/">>, <<".">>, <<"d">>} }
Ok1(s, o) == CASE o.op = "rm" -> Exists(s.fs, o.path)
               [] o.op = "put" -> \A i \in Nodes(s.fs, o.path) : s.fs[i][2] # o.node
               [] o.op = "cd" -> s.cwd # o.path
               [] o.op = "ext" -> o.ext \notin s.exts
               [] OTHER -> TRUE

VARIABLES s, hist
vars == <<s, hist>>
Init == /\ s = [fs |-> << <<<<D>>, <<"dir">>>> >>, cwd |-> <<>>, exts |-> Known]
        /\ hist = << [op |-> "put", path |-> <<D>>, node |-> <<"dir">>, out |-> <<"done">>] >>
Next == /\ Len(hist) <= Depth
        /\ \E o \in IF Len(hist) = Depth THEN Looks ELSE Changes :
             /\ Ok1(s, o)
             /\ \E r \in FileStep(s, o) : s' = r.s /\ hist' = Append(hist, [out |-> r.out] @@ o)
Spec == Init /\ [][Next]_vars
Emit == IF Len(hist) = Depth + 1 THEN PrintT(ToJson([ops |-> hist])) ELSE TRUE
Finds == \A n \in Names : FindLaw(s, n)
Frames == \A n \in Names, i \in 1..Len(s.fs) : FrameLaw(s, n, i)
WriteLoads == \A n \in Names, e \in Elements : WriteLoad(s, n, e)
Trees == TreeLaw(s)
=============================================================================
