------------------------------ MODULE EntryPoint ------------------------------
(***************************************************************************)
(* A run of a program through its entry point (marsh.main), step by step.   *)
(*   p   the program: [kind "fn" or "config", t its type (a struct of kind  *)
(*       "fn", or the config class), env] and the call [ca, ck]             *)
(*   o   the command line: [known (all options are), help, root, output,    *)
(*       out, overrides]; help, root, output and out are <<>> or <<text>>   *)
(*   b   what the program does: <<"return">>, <<"raise", kind>>,            *)
(*       <<"write", path>> (a file), <<"cd", path>>                         *)
(* The state: fs, cwd, exts (module Config) and                             *)
(*   at (the next step), from (where the run started), todo (overrides),    *)
(*   e (the element so far), shown (written to the standard output),        *)
(*   calls (what the program was called with), end (how it ended)           *)
(***************************************************************************)
EXTENDS Commands, Unmarshal

Asked(x) == x # <<>> /\ x # << <<>> >>
Start(s, o) == [fs |-> s.fs, cwd |-> s.cwd, exts |-> s.exts, at |-> "args", from |-> s.cwd, todo |-> o.overrides,
                e |-> Missing, v |-> None, shown |-> <<>>, calls |-> <<>>, end |-> <<>>]
Failed == <<"exit", "nonzero">>
Stop(r, end) == [r EXCEPT !.at = "leave", !.end = end]

(* one override of the command line *)
Override(r, o, text) ==
    LET v == ParseOverride(text)
        fields == Split(v.path, Dot)
    IN IF v.ok /\ v.kind = "delete" /\ fields.ok /\ fields.fields = <<>> THEN ErrorR
       ELSE Command(r, r.e, text, IF o.root = <<>> THEN <<>> ELSE o.root[1], TRUE)

(* directories of a path that are made, as os.makedirs does; Nowhere if there is a file in the way *)
RECURSIVE Make(_, _, _)
Make(fs, at, parts) ==
    IF parts = <<>> THEN [ok |-> TRUE, fs |-> fs, p |-> at]
    ELSE LET n == parts[1] IN
         IF n = <<>> \/ n = <<".">> THEN Make(fs, at, Tail(parts))
         ELSE LET p == Append(at, n) IN
              IF ~Exists(fs, p) THEN Make(Put(fs, p, <<"dir">>), p, Tail(parts))
              ELSE IF IsDir(fs, p) THEN Make(fs, p, Tail(parts)) ELSE [ok |-> FALSE, fs |-> fs, p |-> at]

(* the arguments of the call *)
Arguments(r, p) ==
    IF p.kind = "fn" THEN
        LET site == SiteBad(p.t[4], p.ca, p.ck)
            b == Bind(p.t[4], Dressed(r.e, "d", "l"), p.ca, p.ck, p.env)
        IN IF site THEN Err ELSE IF b.ok THEN Ok(Construct(p.t[2], p.t[3], b.v)) ELSE b
    ELSE UM(p.t, Dressed(r.e, "d", "l"), <<>>, p.env)

Advance(p, o, b, r) ==
    CASE r.at = "args" ->
           (* an entry point with a config class is the program itself to those who call it with arguments *)
           IF p.kind = "config" /\ (p.ca # <<>> \/ p.ck # <<>>)
           THEN [r EXCEPT !.at = "call", !.v = <<"site", p.ca, p.ck>>]
           ELSE IF ~o.known THEN Stop(r, Failed) ELSE [r EXCEPT !.at = "help"]
      [] r.at = "help" -> IF o.help # <<>> THEN Stop(r, <<"help", o.help[1]>>) ELSE [r EXCEPT !.at = "load"]
      [] r.at = "load" ->
           IF r.todo = <<>> THEN [r EXCEPT !.at = "settle"]
           ELSE LET v == Override(r, o, r.todo[1])
                IN IF v.ok THEN [r EXCEPT !.e = v.v, !.todo = Tail(@)] ELSE Stop(r, Failed)
      [] r.at = "settle" ->
           LET v == Resolve(r.e)
           IN IF v.ok THEN [r EXCEPT !.e = DropMeta(v.v), !.at = "enter"] ELSE Stop(r, Failed)
      [] r.at = "enter" ->
           IF ~Asked(o.output) THEN [r EXCEPT !.at = "write"]
           ELSE LET m == Make(r.fs, IF Absolute(o.output[1]) THEN <<>> ELSE r.cwd, Parts(o.output[1]))
                IN IF m.ok THEN [r EXCEPT !.fs = m.fs, !.cwd = m.p, !.at = "write"] ELSE Stop([r EXCEPT !.fs = m.fs], Failed)
      [] r.at = "write" ->
           IF ~Asked(o.out) THEN [r EXCEPT !.at = "bind"]
           ELSE IF o.out[1] = <<"-">> THEN [r EXCEPT !.shown = <<r.e>>, !.at = "bind"]
           ELSE LET w == CHOOSE w \in FileStep(r, [op |-> "write", name |-> o.out[1], e |-> r.e]) : TRUE
                IN IF w.out = <<"done">> THEN [w.s EXCEPT !.at = "bind"] ELSE Stop(w.s, Failed)
      [] r.at = "bind" ->
           LET a == Arguments(r, p) IN IF a.ok THEN [r EXCEPT !.v = a.v, !.at = "call"] ELSE Stop(r, Failed)
      [] r.at = "call" ->
           LET c == [r EXCEPT !.calls = Append(@, [v |-> r.v, cwd |-> r.cwd])]
           IN CASE b[1] = "raise" -> Stop(c, <<"raised", b[2]>>)
                [] b[1] = "write" -> Stop([c EXCEPT !.fs = Put(@, b[2], <<"junk">>)], <<"returned">>)
                [] b[1] = "cd" -> Stop([c EXCEPT !.cwd = Place(c, b[2])[2]], <<"returned">>)
                [] OTHER -> Stop(c, <<"returned">>)
      [] r.at = "leave" ->
           [r EXCEPT !.at = "done",
                     !.cwd = IF p.kind = "config" /\ (p.ca # <<>> \/ p.ck # <<>>) THEN @
                             ELSE IF Asked(o.output) THEN r.from ELSE @]
      [] OTHER -> r
RECURSIVE Finish(_, _, _, _)
Finish(p, o, b, r) == IF r.at = "done" THEN r ELSE Finish(p, o, b, Advance(p, o, b, r))
Run(p, o, b, s) == Finish(p, o, b, Start(s, o))

-----------------------------------------------------------------------------
(* Laws of runs *)
Direct(p) == p.kind = "config" /\ (p.ca # <<>> \/ p.ck # <<>>)
CalledOnce(p, o, b, r) ==
    r.at = "done" => /\ Len(r.calls) <= 1
                     /\ (Len(r.calls) = 1) <=> (r.end[1] \in {"returned", "raised"})
Restored(p, o, b, r) == r.at = "done" /\ ~(b[1] = "cd" /\ ~Asked(o.output)) /\ ~Direct(p) => r.cwd = r.from
HelpOnly(p, o, b, s, r) ==
    r.at = "done" /\ o.known /\ o.help # <<>> /\ ~Direct(p) => r.calls = <<>> /\ r.fs = s.fs /\ r.shown = <<>> /\ r.end[1] = "help"
(* what it was told to write is there if the program was called *)
Written(p, o, b, s, r) ==
    r.at = "done" /\ r.calls # <<>> /\ ~Direct(p) /\ Asked(o.out) =>
        IF o.out[1] = <<"-">> THEN r.shown = <<r.e>>
        ELSE \E i \in 1..Len(r.fs) : r.fs[i][2] = <<"file", r.e>>
=============================================================================
