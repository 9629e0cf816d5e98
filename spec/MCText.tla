------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* All short texts over an alphabet, grown character by character, and     *)
(* what they mean as a path, an element or an override.                    *)
(***************************************************************************)
EXTENDS ParseText, TLC, Json
CONSTANTS What, Chars0, MaxLen

Alphabet ==
    CASE Chars0 = "path" -> {"a", ".", "b", "\"", "'", "\\"}
      [] Chars0 = "all" -> {"[", "]", "(", ")", "{", "}", ",", ":", "a", "1", "\"", "\\", " "}
      [] Chars0 = "nested" -> {"[", "]", "{", "}", ",", ":", "1", "\""}
      [] Chars0 = "number" -> {"-", "+", ".", "1", "_", "e", " "}
      [] Chars0 = "quoting" -> {"a", "\"", "'", "\\", ",", "]"}
      [] Chars0 = "maps" -> {"[", "{", ":", "}", "]", "a", ","}
      [] Chars0 = "edits" -> {"~", "a", ".", "+", "=", "@", ","}
      [] OTHER -> {"a", "=", "+", "\"", "\\", "["}


VARIABLE text
Init == text = <<>>
Meaning ==
    CASE What = "path" -> Split(text, Dot)
      [] What = "element" -> LET r == ParseElement(text)
                             IN IF r.ok THEN [ok |-> TRUE, v |-> r.v] ELSE No
      [] OTHER -> ParseOverride(text)
Next == /\ PrintT(ToJson([t |-> text, m |-> Meaning]))
        /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c)
Spec == Init /\ [][Next]_text

(* The text written for the fields of a path denotes that path again. *)
PathRoundTrip ==
    LET s == Split(text, Dot)
    IN s.ok => Split(WritePath(s.fields, Dot), Dot) = s
(* The text written for an element denotes that element again. *)
RECURSIVE Plain(_)
Plain(e) == IF IsSeq(e) THEN \A i \in 1..Len(Items(e)) : Plain(Items(e)[i])
            ELSE IF IsMap(e) THEN \A i \in 1..Len(Pairs(e)) : Plain(Pairs(e)[i][2])
            ELSE Tag(e) # "f" \/ ~FloatIsInteger(e)
ElementRoundTrip ==
    LET r == ParseElement(text)
    IN (r.ok /\ Plain(r.v)) => LET s == ParseElement(Write(r.v)) IN s.ok /\ s.v = r.v
(* A text is exactly one of: a deletion, a value, a config, an error. *)
OverrideKinds ==
    LET o == ParseOverride(text)
    IN o.ok => /\ o.kind = "delete" => CharAt(text, Skip(text, 1)) = "~"
               /\ o.kind = "value" => \E i \in 1..Len(text) : text[i] = "="
               /\ o.kind = "config" => \E i \in 1..Len(text) : text[i] = "@"
=============================================================================
