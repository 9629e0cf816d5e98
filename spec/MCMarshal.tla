----------------------------- MODULE MCMarshal -----------------------------
(***************************************************************************)
(* Every value that a type of a small family has for an element of a small *)
(* family: what it marshals to and what comes back.                        *)
(***************************************************************************)
EXTENDS MCUnmarshal, Marshal

Element == M(Out.v)
Back == Um(ty.t, Element)
MarshalCase == [n |-> n, i |-> step, m |-> Element, back |-> IF Back.ok THEN [ok |-> TRUE, v |-> Back.v] ELSE Back]
EmitMarshal == CASE n = 0 -> PrintT(ToJson([elems |-> TLCGet(2)]))
                 [] step = 0 -> PrintT(ToJson([n |-> n, t |-> ty.t, env |-> ty.env]))
                 [] OTHER -> Out.ok => PrintT(ToJson(MarshalCase))
RoundTrip == Real /\ Out.ok => RoundTrips(ty.t, Out.v, ty.env)
Simple == Real /\ Out.ok /\ ~Marked(Out.v) => JsonLike(Element)
(* marshaling what comes back gives the same element again *)
Settled == Real /\ Out.ok /\ Safe(ty.t, Out.v, ty.env) => M(Back.v) = Element
=============================================================================
