------------------------------ MODULE FragRead ------------------------------
(* C06: one tag read whose answer the target may split into partial transfers. *)
(* The value read is total bytes long.  The client asks with a Read request and *)
(* continues with fragment reads at the byte offset it has received so far; the *)
(* target decides how many bytes each reply carries and with which status.     *)
EXTENDS Integers, Sequences, TLC

READ == 76
FRAG == 82
OK == 0
PARTIAL == 6

VARIABLES
    total,      \* bytes of the value the target stores
    elems,      \* number of elements the caller asked for
    isStruct,   \* the value is structured data (its fragments are refused)
    phase,      \* "idle", "call", "wait" (a request is unanswered), "more", "stuck", "done", "bad", "ret"
    asked,      \* the outstanding request: [svc, off, elems]
    got,        \* bytes received so far
    first,      \* the first request has not been answered yet
    res         \* "none", "ok", "err"

fvars == <<total, elems, isStruct, phase, asked, got, first, res>>

NoReq == [svc |-> 0, off |-> -1, elems |-> -1]

FInit(tot, el, st) ==
    /\ total = tot /\ elems = el /\ isStruct = st
    /\ phase = "idle" /\ asked = NoReq /\ got = 0 /\ first = TRUE /\ res = "none"

Call == /\ phase = "idle"
        /\ phase' = "call"
        /\ UNCHANGED <<total, elems, isStruct, asked, got, first, res>>

\* the client sends its first request
SendRead(r) ==
    /\ phase = "call"
    /\ r = [svc |-> READ, off |-> -1, elems |-> elems]
    /\ asked' = r
    /\ phase' = "wait"
    /\ UNCHANGED <<total, elems, isStruct, got, first, res>>

\* the client asks for the rest, at exactly the offset reached
SendFrag(r) ==
    /\ phase \in {"more", "stuck"}
    /\ phase = "stuck" => first      \* an empty first transfer may be continued, an empty continuation may not
    /\ ~isStruct
    /\ r = [svc |-> FRAG, off |-> got, elems |-> elems]
    /\ asked' = r
    /\ first' = FALSE
    /\ phase' = "wait"
    /\ UNCHANGED <<total, elems, isStruct, got, res>>

\* the target answers with n further bytes
Reply(n, st, fault) ==
    /\ phase = "wait"
    /\ n >= 0 /\ n <= total - got
    /\ IF fault # "" \/ ~(st \in {OK, PARTIAL})
       THEN /\ phase' = "bad"
            /\ UNCHANGED got
       ELSE /\ got' = got + n
            /\ phase' = IF st = OK THEN (IF got + n = total THEN "done" ELSE "bad")
                        ELSE IF n = 0 THEN "stuck" ELSE "more"
    /\ UNCHANGED <<total, elems, isStruct, asked, first, res>>

\* the value is complete: success is reported, and nothing else
ReturnOk ==
    /\ phase = "done"
    /\ res' = "ok"
    /\ phase' = "ret"
    /\ UNCHANGED <<total, elems, isStruct, asked, got, first>>

\* something went wrong: an error is reported
ReturnErr ==
    /\ \/ phase = "bad"
       \/ phase = "stuck"
       \/ phase = "more" /\ isStruct      \* fragments of structured data are refused
    /\ res' = "err"
    /\ phase' = "ret"
    /\ UNCHANGED <<total, elems, isStruct, asked, got, first>>

-----------------------------------------------------------------------------
(* The property. *)
WholeOrError == res = "ok" => (got = total)
AtReached == asked.svc = FRAG => asked.off <= got /\ asked.elems = elems
Inv == WholeOrError /\ AtReached
=============================================================================
