------------------------------ MODULE Describe ------------------------------
(***************************************************************************)
(* The texts that describe a type and its fields.                          *)
(*                                                                         *)
(* A text is a sequence of paragraphs, which are sequences of words.  A    *)
(* class (or function) is a record                                         *)
(*   doc   <<>>, or <<[main, notes]>>: the text its docstring opens with   *)
(*         and what it says about parameters, <<name, words>>s             *)
(*   body  its statements after the docstring                              *)
(*           [s |-> "ann", n |-> name, w |-> <<>>]     a declared field    *)
(*           [s |-> "str", n |-> "", w |-> words]      a bare text         *)
(*           [s |-> "other", n |-> "", w |-> <<>>]     anything else       *)
(* and a chain is a sequence of these: the type and those it derives from. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

(* reading the statements of a body: the field just declared, the texts *)
ReadStart == [last |-> "", texts |-> <<>>]
Read(st, stmt) ==
    CASE stmt.s = "ann" -> [st EXCEPT !.last = stmt.n]
      [] stmt.s = "str" -> [last |-> "", texts |-> IF st.last = "" THEN st.texts
                                                   ELSE Append(st.texts, <<st.last, stmt.w>>)]
      [] OTHER -> [st EXCEPT !.last = ""]
Below(body) == FoldLeft(Read, ReadStart, body).texts

Notes(c) == IF c.doc = <<>> THEN <<>> ELSE c.doc[1].notes
TextFor(notes, n) ==
    LET hits == SelectSeq(notes, LAMBDA q : q[1] = n)
    IN IF hits = <<>> THEN <<>> ELSE hits[1][2]
(* what a class itself says about a field *)
OwnText(c, n) ==
    LET said == TextFor(Notes(c), n)
    IN IF said # <<>> THEN said ELSE TextFor(Below(c.body), n)
(* the closest class that says something about a field *)
FieldText(chain, n) ==
    LET said == SelectSeq([i \in 1..Len(chain) |-> OwnText(chain[i], n)], LAMBDA t : t # <<>>)
    IN IF said = <<>> THEN <<>> ELSE said[1]

TypeText(c) == IF c.doc = <<>> THEN <<>> ELSE c.doc[1].main
(* dataclasses and named tuples show all of their docstring *)
Whole(kind) == kind \in {"dc", "nt"}
IsTypeText(kind, c, obs) ==
    IF Whole(kind) /\ Notes(c) # <<>>
    THEN Len(obs) >= Len(TypeText(c)) /\ SubSeq(obs, 1, Len(TypeText(c))) = TypeText(c)
    ELSE obs = TypeText(c)

Words(text) == FlattenSeq(text)
Within(words, part) ==
    \E i \in 0..(Len(words) - Len(part)) : SubSeq(words, i + 1, i + Len(part)) = part
(* the blocks of a rendered documentation: the words of a field, then its text *)
AreBlocks(blocks, heads, texts) ==
    /\ Len(blocks) = Len(heads)
    /\ \A i \in 1..Len(heads) : blocks[i] = heads[i] \o texts[i]
(* a part of a structure: its own line, which nobody wrote a text for, then those of its fields *)
PartTexts(part) == [i \in 1..Len(part.fields) |-> FieldText(part.chain, part.fields[i])]
PartBlocks(part) == <<part.head>> \o [i \in 1..Len(part.heads) |-> part.heads[i] \o PartTexts(part)[i]]
(* the sections for types: those that have a title *)
Sections(given) == SelectSeq(given, LAMBDA q : q[1] # <<>>)
=============================================================================
