---------------------------- MODULE MCDescribe ----------------------------
(* All short bodies of a class and of the class it derives from, read a      *)
(* statement at a time.                                                      *)
EXTENDS Describe, TLC, Json
CONSTANTS Long

Stmts == {[s |-> "ann", n |-> "a", w |-> <<>>], [s |-> "ann", n |-> "b", w |-> <<>>],
          [s |-> "str", n |-> "", w |-> <<"blue">>], [s |-> "str", n |-> "", w |-> <<"red">>],
          [s |-> "other", n |-> "", w |-> <<>>]}
Docs == {<<>>, <<[main |-> << <<"top">> >>, notes |-> <<>>]>>,
         <<[main |-> << <<"top">> >>, notes |-> << <<"b", <<"noted">> >> >>]>>}
Bases == { [doc |-> <<>>, body |-> <<[s |-> "ann", n |-> "a", w |-> <<>>], [s |-> "str", n |-> "", w |-> <<"under">>]>>],
           [doc |-> <<[main |-> << <<"base">> >>, notes |-> << <<"b", <<"first">> >> >>]>>,
            body |-> <<[s |-> "ann", n |-> "b", w |-> <<>>], [s |-> "str", n |-> "", w |-> <<"under">>]>>] }

VARIABLES doc, body, st, base
vars == <<doc, body, st, base>>
Init == doc \in Docs /\ base \in Bases /\ body = <<>> /\ st = ReadStart
Declared(b, n) == \E i \in 1..Len(b) : b[i].s = "ann" /\ b[i].n = n
Next == /\ Len(body) < Long
        /\ \E x \in Stmts :
            /\ x.s = "ann" => ~Declared(body, x.n)
            (* the first text of a body is the docstring *)
            /\ (body = <<>> /\ doc = <<>>) => x.s # "str"
            /\ body' = Append(body, x) /\ st' = Read(st, x)
        /\ UNCHANGED <<doc, base>>
Spec == Init /\ [][Next]_vars

This == [doc |-> doc, body |-> body]
Chain == <<This, base>>
Emit == PrintT(ToJson([chain |-> Chain, text |-> TypeText(This),
                       a |-> FieldText(Chain, "a"), b |-> FieldText(Chain, "b")]))

(* a text is that of the field right above it *)
RightAbove == \A i \in 1..Len(st.texts) :
                 \E j \in 1..(Len(body) - 1) : /\ body[j].s = "ann" /\ body[j].n = st.texts[i][1]
                                               /\ body[j + 1].s = "str" /\ body[j + 1].w = st.texts[i][2]
OneEach == \A i, j \in 1..Len(st.texts) : st.texts[i][1] = st.texts[j][1] => i = j
(* fields that are not spoken of have no text *)
Nothing == \A n \in {"a", "b", "c"} :
    (TextFor(Notes(This), n) = <<>> /\ ~Declared(body, n) /\ TextFor(Notes(base), n) = <<>> /\ ~Declared(base.body, n))
        => FieldText(Chain, n) = <<>>
(* the docstring goes before the body, the class before the one it derives from *)
Closest == /\ TextFor(Notes(This), "b") # <<>> => FieldText(Chain, "b") = TextFor(Notes(This), "b")
           /\ OwnText(This, "a") # <<>> => FieldText(Chain, "a") = OwnText(This, "a")
           /\ OwnText(This, "a") = <<>> => FieldText(Chain, "a") = OwnText(base, "a")
(* more statements do not change what is said so far *)
Stable == [][IsPrefix(st.texts, st'.texts)]_vars
=============================================================================
