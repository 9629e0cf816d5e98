-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* Config files (marsh.config) on a file system.  The state:                *)
(*   fs   <<path, node>> pairs; a path is a sequence of names (sequences of *)
(*        characters) below the root directory, a node <<"dir">>,           *)
(*        <<"file", element>> or <<"junk">> (a file nothing can be read of) *)
(*   cwd  the path of the working directory                                 *)
(*   exts the extensions that can be read and written                       *)
(* Names of files and directories are texts as in any call of the system.   *)
(***************************************************************************)
EXTENDS Element, Scalar, FiniteSets

Slash == "/"
Nodes(fs, p) == {i \in 1..Len(fs) : fs[i][1] = p}
Exists(fs, p) == p = <<>> \/ Nodes(fs, p) # {}
Node(fs, p) == IF p = <<>> THEN <<"dir">> ELSE fs[CHOOSE i \in Nodes(fs, p) : TRUE][2]
IsDir(fs, p) == Exists(fs, p) /\ Node(fs, p) = <<"dir">>
IsFile(fs, p) == Exists(fs, p) /\ Node(fs, p) # <<"dir">>
Parent(p) == SubSeq(p, 1, Len(p) - 1)
LeafOf(p) == p[Len(p)]
Inside(fs, p) == {i \in 1..Len(fs) : fs[i][1] # <<>> /\ Parent(fs[i][1]) = p}
Below(fs, p) == {i \in 1..Len(fs) : Len(fs[i][1]) > Len(p) /\ SubSeq(fs[i][1], 1, Len(p)) = p}

(* the names in a text, and where it leads *)
Parts(text) == LET r == FoldLeft(LAMBDA acc, c : IF c = Slash THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                                                 ELSE [acc EXCEPT !.cur = Append(@, c)],
                                 [done |-> <<>>, cur |-> <<>>], text)
               IN Append(r.done, r.cur)
Absolute(text) == text # <<>> /\ text[1] = Slash
Nowhere == <<"nowhere">>
Here(p) == <<"at", p>>
(* step by step: only directories have something in them *)
Walk(fs, from, parts) ==
    FoldLeft(LAMBDA acc, n :
               IF acc = Nowhere THEN acc
               ELSE IF n = <<>> \/ n = <<".">> THEN IF IsDir(fs, acc[2]) THEN acc ELSE Nowhere
               ELSE IF ~IsDir(fs, acc[2]) THEN Nowhere
               ELSE IF n = <<".", ".">> THEN IF acc[2] = <<>> THEN acc ELSE Here(Parent(acc[2]))
               ELSE Here(Append(acc[2], n)),
             Here(from), parts)
Place(s, text) == IF text = <<>> THEN Nowhere ELSE Walk(s.fs, IF Absolute(text) THEN <<>> ELSE s.cwd, Parts(text))
There(s, text) == LET w == Place(s, text) IN w # Nowhere /\ Exists(s.fs, w[2])

(* name and extension: the extension begins with the last dot that has another character before it *)
Dots(name) == {i \in 1..Len(name) : name[i] = "." /\ \E j \in 1..i : name[j] # "."}
Stem(name) == IF Dots(name) = {} THEN name
              ELSE SubSeq(name, 1, (CHOOSE i \in Dots(name) : \A j \in Dots(name) : j <= i) - 1)
Ext(name) == SubSeq(name, Len(Stem(name)) + 1, Len(name))
Supported(s, name) == Ext(name) # <<>> /\ Lower(Ext(name)) \in s.exts

NotFound == <<"ConfigFileError">>
Last0(parts) == parts[Len(parts)]
DirText(text) ==    \* what comes before the last name
    LET n == Len(Last0(Parts(text))) IN SubSeq(text, 1, Len(text) - n)
Named(s, dir, name) ==
    {i \in Inside(s.fs, dir) : LET n == LeafOf(s.fs[i][1]) IN IsFile(s.fs, s.fs[i][1]) /\ Supported(s, n) /\ Stem(n) = name}
Find(s, text) ==
    LET name == Last0(Parts(text))
        dir == IF DirText(text) = <<>> THEN Here(s.cwd) ELSE Place(s, DirText(text))
    IN IF Ext(name) # <<>> THEN IF There(s, text) THEN <<"found", Place(s, text)[2]>> ELSE NotFound
       ELSE IF dir = Nowhere \/ ~IsDir(s.fs, dir[2]) THEN NotFound
       ELSE LET is == Named(s, dir[2], name)
            IN IF Cardinality(is) # 1 THEN NotFound ELSE <<"found", s.fs[CHOOSE i \in is : TRUE][1]>>

-----------------------------------------------------------------------------
(* Interpolations: ${path} stands for what is at the path, itself resolved. *)
ErrorR == [ok |-> FALSE]
(* the pieces of a string: <<"text", chars>> and <<"ref", chars>> *)
Pieces(cs) ==
    LET r == FoldLeft(LAMBDA acc, c :
                 IF acc.inside THEN IF c = "}" THEN [done |-> Append(acc.done, <<"ref", acc.cur>>), cur |-> <<>>, inside |-> FALSE]
                                ELSE [acc EXCEPT !.cur = Append(@, c)]
                 ELSE IF c = "{" /\ acc.cur # <<>> /\ acc.cur[Len(acc.cur)] = "$"
                      THEN [done |-> Append(acc.done, <<"text", Front(acc.cur)>>), cur |-> <<>>, inside |-> TRUE]
                 ELSE [acc EXCEPT !.cur = Append(@, c)],
                 [done |-> <<>>, cur |-> <<>>, inside |-> FALSE], cs)
    IN SelectSeq(Append(r.done, <<"text", r.cur>>), LAMBDA p : p # <<"text", <<>>>>)
HasRef(v) == Tag(v) = "s" /\ \E i \in 1..Len(Pieces(v[2])) : Pieces(v[2])[i][1] = "ref"
RefFields(cs) == LET r == FoldLeft(LAMBDA acc, c : IF c = "." THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                                                   ELSE [acc EXCEPT !.cur = Append(@, c)],
                                   [done |-> <<>>, cur |-> <<>>], cs)
                 IN Append(r.done, r.cur)
Natural(cs) == cs # <<>> /\ \A i \in 1..Len(cs) : cs[i] \in Digit

WholeRef(v) == HasRef(v) /\ Len(Pieces(v[2])) = 1
RECURSIVE Go(_, _, _, _, _)
(* what is at a path below v, which is at `at` of root: references on the way are followed (chain: those being followed) *)
Go(root, v, at, fields, chain) ==
    IF WholeRef(v)
    THEN LET r == IF at \in chain THEN ErrorR ELSE Go(root, root, <<>>, RefFields(Pieces(v[2])[1][2]), chain \cup {at})
         IN IF r.ok THEN Go(root, r.v, r.at, fields, chain) ELSE r
    ELSE IF fields = <<>> THEN IF IsMissing(v) THEN ErrorR ELSE [ok |-> TRUE, v |-> v, at |-> at]
    ELSE LET f == fields[1]
             i == IF Natural(f) /\ Len(f) <= 6 THEN DigitsToNat(f) + 1 ELSE 0
         IN IF IsMap(v) /\ HasKey(v, Str(f)) THEN Go(root, Get(v, Str(f)), Append(at, Str(f)), Tail(fields), chain)
            ELSE IF IsSeq(v) /\ i \in 1..Len(Items(v)) THEN Go(root, Items(v)[i], Append(at, <<"index", i>>), Tail(fields), chain)
            ELSE ErrorR
RECURSIVE Res(_, _, _, _), ResAll(_, _, _, _), ResText(_, _, _, _)
(* v at path `at` of root without references; busy: the strings it is resolved for *)
Res(root, v, at, busy) ==
    IF IsMap(v)
    THEN LET r == ResAll(root, [i \in 1..Len(Pairs(v)) |-> <<Append(at, Pairs(v)[i][1]), Pairs(v)[i][2]>>], busy, <<>>)
         IN IF r.ok THEN Done(<<"d", [i \in 1..Len(Pairs(v)) |-> <<Pairs(v)[i][1], r.v[i]>>]>>) ELSE r
    ELSE IF IsSeq(v)
    THEN LET r == ResAll(root, [i \in 1..Len(Items(v)) |-> <<Append(at, <<"index", i>>), Items(v)[i]>>], busy, <<>>)
         IN IF r.ok THEN Done(<<"t", r.v>>) ELSE r
    ELSE IF ~HasRef(v) THEN Done(v)
    ELSE IF at \in busy THEN ErrorR
    ELSE IF ~WholeRef(v) THEN ResText(root, Pieces(v[2]), busy \cup {at}, <<>>)
    ELSE LET r == Go(root, v, at, <<>>, {}) IN IF r.ok THEN Res(root, r.v, r.at, busy \cup {at}) ELSE r
ResAll(root, todo, busy, acc) ==
    IF todo = <<>> THEN Done(acc)
    ELSE LET r == Res(root, todo[1][2], todo[1][1], busy)
         IN IF r.ok THEN ResAll(root, Tail(todo), busy, Append(acc, r.v)) ELSE r
ResText(root, ps, busy, acc) ==
    IF ps = <<>> THEN Done(Str(acc))
    ELSE IF ps[1][1] = "text" THEN ResText(root, Tail(ps), busy, acc \o ps[1][2])
    ELSE LET t == Go(root, root, <<>>, RefFields(ps[1][2]), {})
             r == IF t.ok THEN Res(root, t.v, t.at, busy) ELSE t
         IN IF ~r.ok THEN r
            ELSE IF IsMap(r.v) \/ IsSeq(r.v) THEN ErrorR        \* (the text of a container is not specified)
            ELSE ResText(root, Tail(ps), busy, acc \o (IF IsNone(r.v) THEN <<"N", "o", "n", "e">> ELSE PrimText(r.v)))
Resolve(e) == IF IsMap(e) \/ IsSeq(e) THEN Res(e, e, <<>>, {}) ELSE Done(e)

-----------------------------------------------------------------------------
MetaKey == <<"s", <<"_", "m", "e", "t", "a", "_">>>>
DropMeta(e) == IF IsMap(e) THEN <<"d", DropPairs(Pairs(e), MetaKey)>> ELSE e
Loaded(s, text) ==
    LET f == Find(s, text)
    IN IF f = NotFound THEN f
       ELSE IF ~Supported(s, LeafOf(f[2])) THEN NotFound
       ELSE IF Node(s.fs, f[2])[1] # "file" THEN <<"unreadable">>
       ELSE <<"ok", Abs(Node(s.fs, f[2])[2])>>
Rooted(root, text) == IF root = <<>> \/ Absolute(text) THEN text
                      ELSE IF root[Len(root)] = Slash THEN root \o text ELSE root \o <<Slash>> \o text
(* names one after the other, so the first that fails is what is reported *)
RECURSIVE LoadEach(_, _, _, _)
LoadEach(s, root, names, acc) ==
    IF names = <<>> THEN <<"ok", acc>>
    ELSE LET r == Loaded(s, Rooted(root, names[1]))
         IN IF r[1] = "ok" THEN LoadEach(s, root, Tail(names), Append(acc, r[2])) ELSE r
Load(s, names, root, resolve, keep, concat) ==
    LET r == LoadEach(s, root, names, <<>>)
        merged == MergeAll(r[2], concat)
        v == IF resolve THEN Resolve(merged) ELSE Done(merged)
    IN IF r[1] # "ok" THEN r
       ELSE IF ~v.ok THEN <<"unresolved">>
       ELSE <<"ok", IF keep THEN v.v ELSE DropMeta(v.v)>>

(* configs below a directory, each as its path from there *)
Tree(s, dir) ==
    { SubSeq(s.fs[i][1], Len(dir) + 1, Len(s.fs[i][1])) :
        i \in { j \in Below(s.fs, dir) : IsFile(s.fs, s.fs[j][1]) /\ Supported(s, LeafOf(s.fs[j][1])) } }

(* Operations, by marsh (find, load, write, tree) or by others. *)
Gone(fs, p) == SelectSeq(fs, LAMBDA x : ~(Len(x[1]) >= Len(p) /\ SubSeq(x[1], 1, Len(p)) = p))
Put(fs, p, node) == Append(SelectSeq(fs, LAMBDA x : x[1] # p), <<p, node>>)
FileStep(s, o) ==
    CASE o.op = "put" -> { [s |-> [s EXCEPT !.fs = Put(@, o.path, o.node)], out |-> <<"done">>] }
      [] o.op = "rm" -> { [s |-> [s EXCEPT !.fs = Gone(@, o.path)], out |-> <<"done">>] }
      [] o.op = "cd" -> { [s |-> [s EXCEPT !.cwd = o.path], out |-> <<"done">>] }
      [] o.op = "ext" -> { [s |-> [s EXCEPT !.exts = @ \cup {o.ext}], out |-> <<"done">>] }
      [] o.op = "find" -> { [s |-> s, out |-> Find(s, o.name)] }
      [] o.op = "load" -> { [s |-> s, out |-> Load(s, o.names, o.root, o.resolve, o.keep, o.concat)] }
      [] o.op = "tree" ->
           LET w == Place(s, o.name)
           IN { [s |-> s, out |-> IF w = Nowhere \/ ~IsDir(s.fs, w[2]) THEN <<"OSError">>
                                  ELSE <<"tree", Tree(s, w[2])>>] }
      [] o.op = "drop" -> { [s |-> s, out |-> <<"dropped", DropMeta(Abs(o.e)), Abs(o.e)>>] }
      [] OTHER ->
           LET w == Place(s, o.name)
               name == Last0(Parts(o.name))
           IN { IF Ext(name) = <<>> THEN [s |-> s, out |-> <<"ValueError">>]
                ELSE IF ~Supported(s, name) THEN [s |-> s, out |-> NotFound]
                ELSE IF w = Nowhere \/ IsDir(s.fs, w[2]) THEN [s |-> s, out |-> <<"OSError">>]
                ELSE [s |-> [s EXCEPT !.fs = Put(@, w[2], <<"file", o.e>>)], out |-> <<"done">>] }

-----------------------------------------------------------------------------
(* Laws *)
(* a name stands for one file: the one of that name with an extension, or the only one with that stem *)
FindLaw(s, text) ==
    LET f == Find(s, text) IN
    f # NotFound => /\ Exists(s.fs, f[2])
                    /\ LeafOf(f[2]) = Last0(Parts(text)) \/ (Supported(s, LeafOf(f[2])) /\ Stem(LeafOf(f[2])) = Last0(Parts(text)))
(* files that are not called so do not matter *)
FrameLaw(s, text, i) ==
    LET n == LeafOf(s.fs[i][1]) name == Last0(Parts(text)) IN
    (IsFile(s.fs, s.fs[i][1]) /\ n # name /\ Stem(n) # name)
        => Find([s EXCEPT !.fs = RemoveAt(@, i)], text) = Find(s, text)
WriteLoad(s, text, e) ==
    \A r \in FileStep(s, [op |-> "write", name |-> text, e |-> e]) :
      r.out = <<"done">> => Load(r.s, <<text>>, <<>>, FALSE, TRUE, FALSE) = <<"ok", e>>
(* configs of a tree are those that are found by their names *)
TreeLaw(s) ==
    \A i \in 1..Len(s.fs) : LET p == s.fs[i][1] IN
      IsFile(s.fs, p) => (p \in Tree(s, <<>>) <=> Supported(s, LeafOf(p)))
=============================================================================
