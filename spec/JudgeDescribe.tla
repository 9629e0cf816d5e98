--------------------------- MODULE JudgeDescribe ---------------------------
(* Judges recorded descriptions of types and fields, and how they are shown. *)
EXTENDS Describe, Judge

Texts(ev) == [i \in 1..Len(ev.fields) |-> FieldText(ev.chain, ev.fields[i])]
Shown(ev) == IF ev.given # <<>> THEN ev.given[1] ELSE ev.text

Holds(ev) ==
    CASE ev.op = "texts" -> /\ IsTypeText(ev.kind, ev.chain[1], ev.text)
                            /\ ev.said = Texts(ev)
      [] ev.op = "lines" -> AreBlocks(ev.blocks, ev.heads, Texts(ev))
      [] ev.op = "page" -> ev.words = ev.type \o Words(ev.text) \o FlattenSeq(
                                        [i \in 1..Len(ev.heads) |-> ev.heads[i] \o Texts(ev)[i]])
      [] ev.op = "help" -> /\ ev.code = 0
                           /\ Within(ev.words, Words(Shown(ev)))
                           /\ (ev.given # <<>> /\ ev.text # <<>> /\ Len(ev.text[1]) > 5) => ~Within(ev.words, ev.text[1])
                           /\ Within(ev.words, ev.epilog)
                           /\ \A i \in 1..Len(ev.fields) : Within(ev.words, ev.heads[i] \o Texts(ev)[i])
      [] ev.op = "tree" -> /\ \A i \in 1..Len(ev.parts) :
                                LET part == ev.parts[i]
                                IN /\ IsTypeText(part.kind, part.chain[1], part.text)
                                   /\ part.said = <<>>
                                   /\ part.deep = PartTexts(part)
                           /\ ev.blocks = FlattenSeq([i \in 1..Len(ev.parts) |-> PartBlocks(ev.parts[i])])
      [] ev.op = "components" -> /\ {ev.parts[i].n : i \in 1..Len(ev.parts)} = 0..(ev.named - 1)
                                 /\ Len(ev.parts) = ev.named
                                 /\ \A i \in 1..Len(ev.parts) :
                                        IsTypeText(ev.parts[i].kind, ev.parts[i].chain[1], ev.parts[i].text)
                                 /\ ev.blocks = [i \in 1..Len(ev.parts) |-> ev.parts[i].head \o Words(ev.parts[i].text)]
      [] OTHER -> ev.got = Sections(ev.given)
Want(ev) == ToString(
    IF ev.op = "sections" THEN Sections(ev.given)
    ELSE IF ev.op \in {"tree", "components"}
    THEN [i \in 1..Len(ev.parts) |-> TypeText(ev.parts[i].chain[1])]
    ELSE [text |-> TypeText(ev.chain[1]), fields |-> Texts(ev)])

Init == JudgeInit
Next == JudgeNext(Holds, Want)
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
