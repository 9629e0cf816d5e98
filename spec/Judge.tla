------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* The engine of the judges: the behaviours of this specification are      *)
(* readings of a recorded trace, event by event (in CHUNKS independent     *)
(* interleaved parts so that the workers of TLC share the work).  A module *)
(* that judges events instantiates Verdict with the condition an event has *)
(* to satisfy and Want with what the specification says instead.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.EVENTS)
Chunks == atoi(IOEnv.CHUNKS)

VARIABLES chunk, pos

JudgeInit == chunk \in 1..Chunks /\ pos = 0
Index == chunk + pos * Chunks
JudgeNext(Holds(_), Want(_)) ==
    /\ Index <= Len(Events)
    /\ chunk' = chunk /\ pos' = pos + 1
    /\ LET ev == Events[Index]
       IN IF Holds(ev) THEN TRUE
          ELSE PrintT(ToJson([n |-> Index, want |-> Want(ev)]))
=============================================================================
