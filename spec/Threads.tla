------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Threads that unmarshal: each goes through its list of types; before a    *)
(* type is used for the first time the schemas of it and of all types it    *)
(* refers to are built.  Finished schemas are shared by all threads, those  *)
(* in progress are known to the thread that builds them only (a type that   *)
(* refers back to one in progress gets a reference that is followed when it *)
(* is used).  One step is one thread looking up, starting or finishing one  *)
(* schema.                                                                  *)
(*                                                                          *)
(* What a use gives is Result(type): the laws say that no interleaving      *)
(* shows.  Emit prints the interleavings, which are imposed on the code.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Work      \* per thread the types it uses

(* 1 and 2 refer to each other, 3 to 1 and to itself, 4 to nothing *)
Refers == << <<2>>, <<1, 4>>, <<1, 3>>, <<>> >>
Wanted == CASE Work = 1 -> << <<1>>, <<1>> >>
            [] Work = 2 -> << <<1>>, <<2>> >>
            [] Work = 3 -> << <<2, 1>>, <<1>> >>
            [] Work = 4 -> << <<3>>, <<2>> >>
            [] Work = 5 -> << <<4, 1>>, <<2>> >>
            [] OTHER -> << <<4>>, <<4>>, <<4>> >>
N == Len(Wanted)
Result(t) == <<"what", t, "gives">>

VARIABLES built, stack, at, got, order
vars == <<built, stack, at, got, order>>
Init == /\ built = {} /\ stack = [n \in 1..N |-> <<>>] /\ at = [n \in 1..N |-> 1]
        /\ got = [n \in 1..N |-> <<>>] /\ order = <<>>

Top(n) == stack[n][Len(stack[n])]
Pop(n) == SubSeq(stack[n], 1, Len(stack[n]) - 1)
Mine(n, t) == \E i \in 1..Len(stack[n]) : stack[n][i].t = t
Push(n, st, t) == [stack EXCEPT ![n] = Append(st, [t |-> t, todo |-> Refers[t]])]
Give(n, t) == /\ got' = [got EXCEPT ![n] = Append(@, Result(t))]
              /\ at' = [at EXCEPT ![n] = @ + 1]
Use(n) ==           \* the next type of the list
    /\ stack[n] = <<>> /\ at[n] <= Len(Wanted[n])
    /\ LET t == Wanted[n][at[n]] IN
       IF t \in built THEN Give(n, t) /\ UNCHANGED <<built, stack>>
       ELSE stack' = Push(n, stack[n], t) /\ UNCHANGED <<built, got, at>>
Visit(n) ==         \* a type that the one in progress refers to
    /\ stack[n] # <<>> /\ Top(n).todo # <<>>
    /\ LET c == Head(Top(n).todo)
           st == Append(Pop(n), [Top(n) EXCEPT !.todo = Tail(@)])
       IN stack' = IF c \in built \/ Mine(n, c) THEN [stack EXCEPT ![n] = st] ELSE Push(n, st, c)
    /\ UNCHANGED <<built, got, at>>
Finish(n) ==
    /\ stack[n] # <<>> /\ Top(n).todo = <<>>
    /\ built' = built \cup {Top(n).t}
    /\ stack' = [stack EXCEPT ![n] = Pop(n)]
    /\ IF Pop(n) = <<>> THEN Give(n, Top(n).t) ELSE UNCHANGED <<got, at>>
Move(n) == (Use(n) \/ Visit(n) \/ Finish(n)) /\ order' = Append(order, n)
Next == \E n \in 1..N : Move(n)
Spec == Init /\ [][Next]_vars /\ \A n \in 1..N : WF_vars(Move(n))

Over(n) == stack[n] = <<>> /\ at[n] > Len(Wanted[n])
Done == \A n \in 1..N : Over(n)
Emit == IF Done THEN PrintT(ToJson([order |-> order])) ELSE TRUE

(* every thread gets what it would get alone *)
AsAlone == \A n \in 1..N : got[n] = [i \in 1..Len(got[n]) |-> Result(Wanted[n][i])]
(* nothing is built twice at a time by one thread *)
NoLoop == \A n \in 1..N : \A i, j \in 1..Len(stack[n]) :
             stack[n][i].t = stack[n][j].t => i = j
(* what a finished schema refers to is finished, or in progress somewhere *)
Closed == \A t \in built : \A i \in 1..Len(Refers[t]) :
             Refers[t][i] \in built \/ \E n \in 1..N : Mine(n, Refers[t][i])
Ends == <>Done
=============================================================================
