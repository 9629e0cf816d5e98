------------------------------ MODULE MCCommands ------------------------------
(* All short lists of override commands, with a few config files about. *)
EXTENDS Commands, TLC, Json
CONSTANTS Length

S(cs) == <<"s", cs>>
I(c) == <<"i", FALSE, <<c>>>>
M(ps) == <<"d", ps>>
L(xs) == <<"t", xs>>
Known == { <<".","j","s","o","n">>, <<".","y","a","m","l">>, <<".","y","m","l">> }
File(p, e) == <<p, <<"file", e>>>>
Fs == << File(<< <<"m",".","j","s","o","n">> >>, M(<< <<S(<<"a">>), I("1")>>, <<MetaKey, I("9")>>, <<S(<<"r">>), S(<<"$","{","a","}">>)>> >>)),
         File(<< <<"l",".","y","m","l">> >>, L(<< I("1"), I("2") >>)),
         File(<< <<"q",".","y","m","l">> >>, L(<< I("3") >>)),
         File(<< <<"x",".","j","s","o","n">> >>, M(<< <<S(<<"a">>), L(<< I("7") >>)>> >>)),
         << << <<"j",".","y","m","l">> >>, <<"junk">> >> >>
(* the texts: p=1 and so on, each as its characters *)
Texts == { <<"a","=","1">>, <<"a",".","b","=","2">>, <<"=","[","1","]">>, <<"a","+","=","[","2","]">>, <<"a",".","0","=","{","}">>, <<"0","=","x">>,
           <<"-","1","+","=","{","b",":","3","}">>, <<"~","a">>, <<"~","a",".","b">>, <<"~","-","1">>, <<"~","0">>,
           <<"@","m">>, <<"a","@","m">>, <<"@","l",",","q">>, <<"a","+","@","l",",","q">>, <<"a","@","l">>, <<"+","@","x",",","m">>, <<"@","x",",","m">>,
           <<"a","@","n">>, <<"@","j">>, <<"a">>, <<"a","=","[">>, <<"a",".","1","=","?","?","?">> }
Starts == { Missing, M(<<>>), L(<<>>), M(<< <<S(<<"a">>), M(<< <<S(<<"b">>), I("4")>> >>)>>, <<S(<<"c">>), I("5")>> >>), I("6") }

VARIABLES e, texts, keep
vars == <<e, texts, keep>>
W == [fs |-> Fs, cwd |-> <<>>, exts |-> Known]
Out == Commands(W, e, texts, <<>>, keep)
Init == e \in Starts /\ texts = <<>> /\ keep \in BOOLEAN
Next == /\ Len(texts) < Length /\ Out[1] = "ok"
        /\ \E t \in Texts : texts' = Append(texts, t)
        /\ UNCHANGED <<e, keep>>
Spec == Init /\ [][Next]_vars
Emit == IF texts = <<>> THEN TRUE ELSE PrintT(ToJson([e |-> e, texts |-> texts, keep |-> keep, out |-> Out, fs |-> IF Len(texts) = 1 THEN Fs ELSE <<>>]))
Assigns == Out[1] = "ok" => \A t \in Texts : Assigned(W, Out[2], t)
Removes == Out[1] = "ok" => \A t \in Texts : ParseOverride(t).ok /\ ParseOverride(t).kind = "delete" => Removed(W, Out[2], t)
Fails == ~keep => FirstFails(W, e, texts)
=============================================================================
