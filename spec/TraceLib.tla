------------------------------ MODULE TraceLib ------------------------------
(* Validation of a batch of recorded executions.  A trace module EXTENDS the    *)
(* system specification and this module; t is the trace being followed, l the   *)
(* position of the next event.  Several traces are checked in one TLC run: t is *)
(* chosen by the initial predicate.  The property invariants are part of the    *)
(* constraint, so a trace is not followed beyond a state which violates them,   *)
(* and the postcondition writes down how far every trace could be followed.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Props

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, l

tvars == <<t, l>>

LibInit == /\ t \in 1..Len(Traces)
           /\ l = 1
           /\ TLCSet(1000 + t, 1)

Ev == Traces[t][l]
Is(name) == /\ l <= Len(Traces[t])
            /\ Traces[t][l].ev = name
            /\ l' = l + 1
            /\ t' = t
Silent == l' = l /\ t' = t
Has(f) == f \in DOMAIN Traces[t][l]

Progress(inv) == inv /\ TLCSet(1000 + t, IF TLCGet(1000 + t) < l THEN l ELSE TLCGet(1000 + t))

Report == JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Traces) |-> TLCGet(1000 + i)])
=============================================================================
