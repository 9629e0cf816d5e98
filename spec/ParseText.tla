----------------------------- MODULE ParseText -----------------------------
(***************************************************************************)
(* Elements, overrides and lists of config names written as text.          *)
(*                                                                         *)
(*   override := ["~"] path | path ["+"] "=" element                       *)
(*                          | path ["+"] "@" names                         *)
(*   element  := mapping | sequence | terminal                             *)
(*   mapping  := "{" [string ":" element {"," string ":" element}] "}"     *)
(*   sequence := "[" [element {"," element}] "]"  (or with parentheses)    *)
(*   terminal := string, read as a number, bool or null unless quoted      *)
(*   string   := characters up to a terminal character, any of them        *)
(*               escaped by a backslash; or all of it inside quotes        *)
(*                                                                         *)
(* Whitespace before and after each of them is skipped, except that the    *)
(* characters of an unquoted string include its trailing whitespace.       *)
(* A parser is given the text, a position and the set of the characters    *)
(* that may follow.  It returns [ok, v, i], i the position after.          *)
(***************************************************************************)
EXTENDS Element, PathText

Yes(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
No == [ok |-> FALSE]
CharAt(t, i) == IF i <= Len(t) THEN t[i] ELSE ""
RECURSIVE Skip(_, _)
Skip(t, i) == IF i <= Len(t) /\ t[i] \in Space THEN Skip(t, i + 1) ELSE i

(* What is left has to begin with a terminal character. *)
Closed(t, r, term) ==
    IF ~r.ok THEN r
    ELSE LET j == Skip(t, r.i)
         IN IF j > Len(t) \/ t[j] \in term THEN r ELSE No

RECURSIVE Unquoted(_, _, _, _)
Unquoted(t, i, term, acc) ==
    IF i > Len(t) \/ CharAt(t, i) \in term THEN Yes(acc, i)
    ELSE IF t[i] = Backslash
    THEN IF i = Len(t) THEN No ELSE Unquoted(t, i + 2, term, Append(acc, t[i + 1]))
    ELSE Unquoted(t, i + 1, term, Append(acc, t[i]))
RECURSIVE Quoted(_, _, _, _)
Quoted(t, i, quote, acc) ==
    IF i > Len(t) THEN No
    ELSE IF t[i] = Backslash
    THEN IF i = Len(t) THEN No ELSE Quoted(t, i + 2, quote, Append(acc, t[i + 1]))
    ELSE IF t[i] = quote THEN Yes(acc, i + 1)
    ELSE Quoted(t, i + 1, quote, Append(acc, t[i]))

String(t, i0, term) ==
    LET i == Skip(t, i0)
    IN Closed(t, IF CharAt(t, i) \in Quotes THEN Quoted(t, i + 1, t[i], <<>>)
                 ELSE Unquoted(t, i, term, <<>>), term)

TRUEs == <<"t","r","u","e">>
FALSEs == <<"f","a","l","s","e">>
NULLs == <<"n","u","l","l">>
Interpret(cs) ==
    LET n == PyInt(cs)  f == PyFloat(cs)  low == Lower(cs)
    IN IF cs = <<>> THEN Str(cs)
       ELSE IF n.ok THEN n.v
       ELSE IF f.ok THEN (IF FloatIsInteger(f.v) THEN FloatToInt(f.v) ELSE f.v)
       ELSE IF low = TRUEs THEN Bool(TRUE)
       ELSE IF low = FALSEs THEN Bool(FALSE)
       ELSE IF low = NULLs THEN None
       ELSE Str(cs)

Terminal(t, i0, term) ==
    LET i == Skip(t, i0)
        r == String(t, i, term)
    IN IF ~r.ok THEN r
       ELSE Yes(IF CharAt(t, i) \in Quotes THEN Str(r.v) ELSE Interpret(r.v), r.i)

StringValue(t, i, term) == LET r == String(t, i, term) IN IF r.ok THEN Yes(Str(r.v), r.i) ELSE r

RECURSIVE Elem(_, _, _), SeqItems(_, _, _, _, _), MapItems(_, _, _)
Sequence(t, i, term, strings) ==      \* t[i] opens the sequence
    LET close == IF t[i] = "[" THEN "]" ELSE ")"
        r == SeqItems(t, Skip(t, i + 1), close, <<>>, strings)
    IN Closed(t, IF r.ok THEN Yes(<<"t", r.v>>, r.i) ELSE r, term)
SeqItems(t, i, close, acc, strings) ==
    IF CharAt(t, i) = close THEN Yes(acc, i + 1)
    ELSE IF i > Len(t) \/ (acc # <<>> /\ t[i] # ",") THEN No
    ELSE LET j == Skip(t, IF acc # <<>> THEN i + 1 ELSE i)
             r == IF strings THEN StringValue(t, j, {",", close}) ELSE Elem(t, j, {",", close})
         IN IF r.ok THEN SeqItems(t, Skip(t, r.i), close, Append(acc, r.v), strings) ELSE r
Mapping(t, i, term) ==
    LET r == MapItems(t, Skip(t, i + 1), <<>>)
    IN Closed(t, IF r.ok THEN Yes(<<"d", r.v>>, r.i) ELSE r, term)
MapItems(t, i, acc) ==
    IF CharAt(t, i) = "}" THEN Yes(acc, i + 1)
    ELSE IF i > Len(t) \/ (acc # <<>> /\ t[i] # ",") THEN No
    ELSE LET k == String(t, Skip(t, IF acc # <<>> THEN i + 1 ELSE i), {":"})
             j == IF k.ok THEN Skip(t, k.i) ELSE 0
         IN IF ~k.ok THEN k
            ELSE IF CharAt(t, j) # ":" THEN No
            ELSE LET v == Elem(t, Skip(t, j + 1), {",", "}"})
                 IN IF v.ok THEN MapItems(t, Skip(t, v.i), PutPairs(acc, Str(k.v), v.v)) ELSE v
Elem(t, i0, term) ==
    LET i == Skip(t, i0)
        c == CharAt(t, i)
    IN Closed(t,
         IF i > Len(t) THEN Yes(Str(<<>>), i)
         ELSE IF c = "{" THEN Mapping(t, i, term)
         ELSE IF c \in {"[", "("} THEN Sequence(t, i, term, FALSE)
         ELSE Terminal(t, i, term), term)

ParseElement(t) == Elem(t, 1, {})

RECURSIVE NameList(_, _, _)
NameList(t, i, acc) ==
    IF i > Len(t) THEN Yes(acc, i)
    ELSE IF acc # <<>> /\ t[i] # "," THEN No
    ELSE LET r == String(t, IF acc # <<>> THEN i + 1 ELSE i, {","})
         IN IF r.ok THEN NameList(t, Skip(t, r.i), Append(acc, Str(r.v))) ELSE r
Names(t, i0) ==
    LET i == Skip(t, i0)
    IN Closed(t,
         IF i > Len(t) THEN No
         ELSE IF t[i] \in {"[", "("}
         THEN LET r == Sequence(t, i, {}, TRUE) IN IF r.ok THEN Yes(Items(r.v), r.i) ELSE r
         ELSE NameList(t, i, <<>>), {})
ParseNames(t) == Names(t, 1)

(* [ok, kind, path (text), combine, v] *)
ParseOverride(t) ==
    LET i0 == Skip(t, 1)
        delete == CharAt(t, i0) = "~"
        p == String(t, IF delete THEN i0 + 1 ELSE i0, {"+", "=", "@"})
        plus == p.ok /\ CharAt(t, p.i) = "+"
        j == IF plus THEN p.i + 1 ELSE p.i
        value == Elem(t, j + 1, {})
        names == Names(t, j + 1)
    IN IF ~p.ok THEN No
       ELSE IF delete
       THEN IF Skip(t, p.i) > Len(t)
            THEN [ok |-> TRUE, kind |-> "delete", path |-> p.v, combine |-> FALSE, v |-> None]
            ELSE No
       ELSE IF CharAt(t, j) = "=" /\ value.ok
       THEN [ok |-> TRUE, kind |-> "value", path |-> p.v, combine |-> plus, v |-> value.v]
       ELSE IF CharAt(t, j) = "@" /\ names.ok
       THEN [ok |-> TRUE, kind |-> "config", path |-> p.v, combine |-> plus,
             v |-> <<"t", names.v>>]
       ELSE No

(* Applying one (a value or a deletion) and many. *)
ApplyOverride(e, o) ==
    LET s == Split(o.path, Dot)
    IN IF ~s.ok THEN [ok |-> FALSE, at |-> <<>>, bad |-> TRUE]
       ELSE IF o.kind = "delete"
       THEN IF IsSeq(e) \/ IsMap(e) THEN DropAt(e, s.fields) ELSE PathErr(<<>>)
       ELSE SetAt(e, s.fields, o.v, o.combine)
RECURSIVE Fold(_, _)
Fold(e, texts) ==       \* [k |-> "ok", v] or the first failure [k |-> "parse"] / [k |-> "path"]
    IF texts = <<>> THEN [k |-> "ok", v |-> e]
    ELSE LET o == ParseOverride(texts[1])
         IN IF ~o.ok THEN [k |-> "parse"]
            ELSE LET r == ApplyOverride(e, o)
                 IN IF r.ok THEN Fold(r.v, Tail(texts)) ELSE [k |-> "path"]

-----------------------------------------------------------------------------
(* One way to write an element down; integral floats have no text of their *)
(* own, they are read as ints.                                             *)
RECURSIVE Write(_), WriteAll(_, _), WritePairs(_, _)
WriteStr(cs) ==
    <<"\"">> \o FoldLeft(LAMBDA acc, c : IF c \in {"\"", Backslash} THEN acc \o <<Backslash, c>>
                                         ELSE Append(acc, c), <<>>, cs) \o <<"\"">>
Write(e) ==
    CASE IsNone(e) -> NULLs
      [] IsStr(e) -> WriteStr(Chars(e))
      [] IsSeq(e) -> <<"[">> \o WriteAll(Items(e), 1) \o <<"]">>
      [] IsMap(e) -> <<"{">> \o WritePairs(Pairs(e), 1) \o <<"}">>
      [] OTHER -> PrimText(e)
WriteAll(xs, i) ==
    IF i > Len(xs) THEN <<>>
    ELSE (IF i > 1 THEN <<",">> ELSE <<>>) \o Write(xs[i]) \o WriteAll(xs, i + 1)
WritePairs(ps, i) ==
    IF i > Len(ps) THEN <<>>
    ELSE (IF i > 1 THEN <<",">> ELSE <<>>) \o WriteStr(Chars(ps[i][1])) \o <<":">>
         \o Write(ps[i][2]) \o WritePairs(ps, i + 1)
=============================================================================
