------------------------------ MODULE PathText ------------------------------
(***************************************************************************)
(* Paths as text.  A path is a list of non-empty fields; this module says  *)
(* which list a text denotes.  A field may contain any character: the      *)
(* delimiter, quotes and backslashes are escaped or quoted.                *)
(***************************************************************************)
EXTENDS Values

Dot == "."
Quotes == {"\"", "'"}
Backslash == "\\"

SplitStep(st, ch, delim) ==
    IF st.esc THEN [st EXCEPT !.cur = Append(@, ch), !.esc = FALSE]
    ELSE IF ch = Backslash THEN [st EXCEPT !.esc = TRUE]
    ELSE IF st.quote # "" THEN
        IF ch = st.quote THEN [st EXCEPT !.quote = ""]
        ELSE [st EXCEPT !.cur = Append(@, ch)]
    ELSE IF ch \in Quotes THEN [st EXCEPT !.quote = ch]
    ELSE IF ch = delim THEN
        [st EXCEPT !.fields = IF st.cur = <<>> THEN @ ELSE Append(@, st.cur),
                   !.cur = <<>>]
    ELSE [st EXCEPT !.cur = Append(@, ch)]

SplitInit == [fields |-> <<>>, cur |-> <<>>, quote |-> "", esc |-> FALSE]

(* [ok |-> TRUE, fields |-> list of fields] or [ok |-> FALSE, ...] *)
Split(text, delim) ==
    LET end == FoldLeft(LAMBDA st, ch : SplitStep(st, ch, delim), SplitInit, text)
        fields == IF end.cur = <<>> THEN end.fields ELSE Append(end.fields, end.cur)
    IN [ok |-> end.quote = "" /\ ~end.esc, fields |-> fields]

ValidPath(text, delim) == Split(text, delim).ok
Fields(text, delim) == Split(text, delim).fields

(* One way of writing a list of fields as text. *)
EscapeField(field, delim) ==
    FoldLeft(LAMBDA acc, ch :
                IF ch \in Quotes \cup {Backslash, delim} THEN acc \o <<Backslash, ch>>
                ELSE Append(acc, ch),
             <<>>, field)
RECURSIVE WritePath(_, _)
WritePath(fields, delim) ==
    IF fields = <<>> THEN <<>>
    ELSE IF Len(fields) = 1 THEN EscapeField(fields[1], delim)
    ELSE EscapeField(fields[1], delim) \o <<delim>> \o WritePath(Tail(fields), delim)
=============================================================================
