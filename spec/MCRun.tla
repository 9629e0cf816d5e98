-------------------------------- MODULE MCRun --------------------------------
(***************************************************************************)
(* Runs of small programs, step by step.  What = "steps": every combination *)
(* of options, with failures at every step; What = "values": every          *)
(* combination of declared defaults, values of the call site and command    *)
(* lines of up to MaxLine overrides.                                        *)
(***************************************************************************)
EXTENDS EntryPoint, TLC, Json
CONSTANTS What, MaxLine, Few

JSON == <<".","j","s","o","n">>
Known == { JSON, <<".","y","a","m","l">>, <<".","y","m","l">> }
I(n) == FromInt(n)
S(x) == <<"s", x>>
M1(k, v) == << S(<<k>>), v >>
F(name, type, d) == [n |-> <<name>>, t |-> type, k |-> "pk", opt |-> FALSE, d |-> d, f |-> FALSE, iv |-> FALSE]
FileA == <<"d", << M1("a", I(7)), <<MetaKey, I(3)>> >>>>
FileB == <<"d", << M1("b", <<"t", <<I(8)>>>>), M1("a", S(<<"$","{","c","}">>)), M1("c", I(9)) >>>>
World0 == [cwd |-> <<<<"w">>>>, exts |-> Known,
           fs |-> << <<<<<<"w">>>>, <<"dir">>>>, <<<<<<"w">>, <<"d">>>>, <<"dir">>>>,
                     <<<<<<"w">>, <<"x">> \o JSON>>, <<"file", FileA>>>>, <<<<<<"w">>, <<"d">>, <<"y">> \o JSON>>, <<"file", FileB>>>>,
                     <<<<<<"w">>, <<"f">>>>, <<"junk">>>> >>]
IntList == <<"list", <<"int">>>>
Program(da, ca, ck) ==
    [kind |-> "fn", env |-> <<>>, ca |-> ca, ck |-> ck,
     t |-> <<"struct", "fn", "F1", << F("a", <<"int">>, da), F("b", IntList, << <<"l", <<>>>> >>) >>>>]
ConfigProgram(ca) ==
    [kind |-> "config", env |-> <<>>, ca |-> ca, ck |-> <<>>,
     t |-> <<"struct", "dc", "C1", << F("a", <<"int">>, <<>>), [F("b", IntList, << <<"l", <<>>>> >>) EXCEPT !.f = TRUE] >>>>]

(* texts of overrides *)
A1 == <<"a","=","1">>
A2 == <<"a","=","2">>
AX == <<"a","=","x">>
AM == <<"a","=","?","?","?">>
B1 == <<"b","=","[","4","]">>
BP == <<"b","+","=","[","5","]">>
B0 == <<"b",".","0","=","6">>
DA == <<"~","a">>
CX == <<"@","x">>
CY == <<"+","@","d","/","y">>
CN == <<"@","n">>
AC == <<"a","=","\"","$","{","c","}","\"">>
C3 == <<"c","=","3">>
DC == <<"~","c">>
MC3 == <<"_","m","e","t","a","_",".","c","=","3">>
Texts == {A1, A2, AX, AM, B1, BP, B0, DA, CX, CY, CN, AC, C3, DC, MC3}
Lines(set, n) == UNION { [1..k -> set] : k \in 0..n }
Plain(line) == [known |-> TRUE, help |-> <<>>, root |-> <<>>, output |-> <<>>, out |-> <<>>, overrides |-> line]

Helps == { <<>>, << <<>> >>, << <<"a">> >>, << <<"z">> >> }
Outputs == { <<>>, << <<"o">> >>, << <<"o","/","p">> >>, << <<"d">> >>, << <<"f">> >>, << <<"f","/","q">> >>, << <<"/","u">> >> }
Outs == { <<>>, << <<"-">> >>, << <<"c">> \o JSON >>, << <<"c",".","t","x","t">> >>, << <<"n","/","c">> \o JSON >>,
          << <<"/","c">> \o JSON >>, << <<"d">> >>, << <<"x">> \o JSON >> }
Roots == IF Few THEN { <<>>, << <<"d">> >> } ELSE { <<>>, << <<"d">> >>, << <<"/","w">> >>, << <<"n">> >> }
StepLines == { <<>>, <<A1>>, <<AX>>, <<CX>>, <<<<"a">>>>, <<A1, <<"@","y">>>>, <<AC>>, <<AC, C3>> }
Behaviours == { <<"return">>, <<"raise", "Raised">>, <<"raise", "KeyboardInterrupt">>, <<"cd", <<"/">>>>, <<"write", <<<<"w">>, <<"m">>>>>> }
StepOptions ==
    { [known |-> k, help |-> h, root |-> r, output |-> p, out |-> t, overrides |-> l] :
        k \in BOOLEAN, h \in Helps, r \in Roots, p \in Outputs, t \in Outs, l \in StepLines }
(* what comes after a failure does not matter: fewer combinations there *)
Sensible(o) == /\ ~o.known => o.help = <<>> /\ o.root = <<>> /\ o.overrides = <<A1>>
               /\ o.help # <<>> => o.root = <<>> /\ o.overrides \in {<<A1>>, <<AX>>, <<<<"a">>>>}
Calls == IF Few THEN { Program(<<>>, <<>>, << M1("a", I(50)) >>), ConfigProgram(<<>>) } ELSE
         { Program(<<>>, <<>>, <<>>), Program(<<>>, <<>>, << M1("a", I(50)) >>), Program(<< I(90) >>, <<I(51)>>, <<>>),
           Program(<<>>, <<>>, << M1("z", I(50)) >>), ConfigProgram(<<>>), ConfigProgram(<<I(52)>>) }
Sites == { [ca |-> <<>>, ck |-> <<>>], [ca |-> <<I(51)>>, ck |-> <<>>], [ca |-> <<>>, ck |-> << M1("a", I(50)) >>],
           [ca |-> <<I(51), <<"l", <<I(52)>>>>>>, ck |-> <<>>], [ca |-> <<>>, ck |-> << M1("b", <<"l", <<I(53)>>>>) >>] }

VARIABLES case, run
vars == <<case, run>>
(* the combinations, chosen one part after the other *)
Init == /\ run = Start(World0, Plain(<<>>))
        /\ case = <<>>
Choose(c) == case' = c /\ run' = Start(World0, c.o)
Pick ==
    IF What = "values"
    THEN \E d \in { <<>>, << I(90) >> }, c \in Sites, l \in Lines(Texts, MaxLine) :
           Choose([p |-> Program(d, c.ca, c.ck), o |-> Plain(l), b |-> <<"return">>])
    ELSE \E o \in {o \in StepOptions : Sensible(o)} : \E p \in Calls, b \in Behaviours :
           (* the program is only called if it gets that far *)
           /\ b = <<"return">> \/ (o.known /\ o.help = <<>> /\ o.overrides \in {<<A1>>, <<CX>>, <<>>} /\ o.root \in {<<>>, << <<"/","w">> >>})
           /\ Choose([p |-> p, o |-> o, b |-> b])
Next == \/ case = <<>> /\ Pick
        \/ /\ case # <<>> /\ run.at # "done"
           /\ run' = Advance(case.p, case.o, case.b, run)
           /\ UNCHANGED case
Spec == Init /\ [][Next]_vars

Done1 == case # <<>> /\ run.at = "done"
Emit == Done1 => PrintT(ToJson([p |-> case.p, o |-> case.o, b |-> case.b]))
EmitWorld == case = <<>> => PrintT(ToJson([world |-> World0]))
IsCalledOnce == case # <<>> => CalledOnce(case.p, case.o, case.b, run)
IsRestored == case # <<>> => Restored(case.p, case.o, case.b, run)
IsHelpOnly == case # <<>> => HelpOnly(case.p, case.o, case.b, World0, run)
IsWritten == case # <<>> => Written(case.p, case.o, case.b, World0, run)
(* the last that sets a parameter counts: an override, else the call site, else the default *)
SetsA(t) == t \in {A1, A2}
LastA(l) == CHOOSE i \in 1..Len(l) : SetsA(l[i]) /\ \A j \in i + 1..Len(l) : ~SetsA(l[j])
OnlySimple(l) == \A i \in 1..Len(l) : l[i] \in {A1, A2, B1, BP, MC3}
Site(p) == IF p.ca # <<>> THEN <<p.ca[1]>> ELSE IF HasKey(<<"d", p.ck>>, S(<<"a">>)) THEN <<Get(<<"d", p.ck>>, S(<<"a">>))>> ELSE <<>>
Precedence ==
    Done1 /\ What = "values" /\ OnlySimple(case.o.overrides) =>
      LET l == case.o.overrides
          d == case.p.t[4][1].d
          want == IF \E i \in 1..Len(l) : SetsA(l[i]) THEN << IF l[LastA(l)] = A1 THEN I(1) ELSE I(2) >>
                  ELSE IF Site(case.p) # <<>> THEN Site(case.p) ELSE d
      IN IF want = <<>> THEN run.end = Failed /\ run.calls = <<>>
         ELSE run.end = <<"returned">> /\ Len(run.calls) = 1 /\ run.calls[1].v[3][1][2] = want[1]
=============================================================================
