------------------------------- MODULE JudgeRun -------------------------------
(* Judges recorded histories of runs: ev.fs and ev.cwd the world, ev.p the  *)
(* program, ev.runs the calls of its entry point.                           *)
EXTENDS EntryPoint, Judge

Exts == { <<".","j","s","o","n">>, <<".","y","a","m","l">>, <<".","y","m","l">> }
Program(ev, u) == [kind |-> ev.kind, t |-> ev.t, env |-> ev.env, ca |-> u.ca, ck |-> u.ck]
NodeOf(n) == IF n[1] = "file" THEN <<"file", Norm(Abs(n[2]))>> ELSE n
Tree1(fs) == { <<fs[i][1], NodeOf(fs[i][2])>> : i \in 1..Len(fs) }
CallNorm(v) == IF v[1] = "site" THEN <<"site", NormSeq(v[2]), NormPairs(v[3])>> ELSE Norm(v)
Ends(end, out) ==
    CASE end[1] = "help" -> out = <<"exit", "0">> \/ (end[2] # <<>> /\ out = Failed)
      [] OTHER -> out = end
Match(r, out) ==
    /\ Ends(r.end, out.end)
    /\ Len(out.calls) = Len(r.calls)
    /\ \A i \in 1..Len(r.calls) : CallNorm(out.calls[i].v) = CallNorm(r.calls[i].v) /\ out.calls[i].cwd = r.calls[i].cwd
    /\ out.cwd = r.cwd
    /\ Tree1(out.fs) = Tree1(r.fs)
    /\ r.shown # <<>> => \E i \in 1..Len(out.docs) : Norm(out.docs[i]) = Norm(Abs(r.shown[1]))
RECURSIVE Bad(_, _, _)
(* the first run that differs, with what it should have been *)
Bad(ev, s, n) ==
    IF n > Len(ev.runs) THEN <<>>
    ELSE LET u == ev.runs[n]
             r == Run(Program(ev, u), u.o, u.b, s)
         IN IF Match(r, u.out) THEN Bad(ev, [fs |-> r.fs, cwd |-> r.cwd, exts |-> s.exts], n + 1)
            ELSE <<n, [end |-> r.end, calls |-> r.calls, cwd |-> r.cwd, shown |-> r.shown, e |-> r.e,
                       more |-> Tree1(r.fs) \ Tree1(u.out.fs), less |-> Tree1(u.out.fs) \ Tree1(r.fs)]>>
World(ev) == [fs |-> ev.fs, cwd |-> ev.cwd, exts |-> Exts]
Holds(ev) == Bad(ev, World(ev), 1) = <<>>
Want(ev) == ToString(Bad(ev, World(ev), 1))
Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
