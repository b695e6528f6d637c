----------------------------- MODULE FragReadMC -----------------------------
(* Exhaustive exploration, and generation of the target's behaviours: hist is   *)
(* the sequence of the target's decisions in one behaviour.                     *)
EXTENDS FragRead, Json
CONSTANTS MaxTotal, MaxReplies, Sizes, Statuses, Faults, Gen
VARIABLE hist

MCInit == /\ \E tot \in Sizes, st \in BOOLEAN : FInit(tot, tot, st)
          /\ hist = <<>>

DoReply == /\ Len(hist) < MaxReplies
           /\ \E n \in 0..(total - got), st \in Statuses, f \in Faults :
                 /\ (st \notin {OK, PARTIAL} \/ f # "") => n = 0
                 /\ f # "" => st = OK
                 /\ Reply(n, st, f)
                 /\ hist' = Append(hist, [n |-> n, st |-> st, fault |-> f])

MCNext == \/ (Call /\ UNCHANGED hist)
          \/ (SendRead([svc |-> READ, off |-> -1, elems |-> elems]) /\ UNCHANGED hist)
          \/ (SendFrag([svc |-> FRAG, off |-> got, elems |-> elems]) /\ UNCHANGED hist)
          \/ DoReply
          \/ (ReturnOk /\ UNCHANGED hist)
          \/ (ReturnErr /\ UNCHANGED hist)

MCvars == <<fvars, hist>>
Spec == MCInit /\ [][MCNext]_MCvars /\ WF_MCvars(MCNext)

\* every read terminates (the number of replies is bounded by progress)
Terminates == <>(phase = "ret" \/ Len(hist) >= MaxReplies)
TotalConst == [][total' = total]_MCvars
\* without an empty first transfer, a read that goes on makes progress with every reply
Progressing == phase = "more" => got > 0

Emit == (Gen /\ phase = "ret") => PrintT("SCN " \o ToJson([total |-> total, struct |-> isStruct, steps |-> hist]))
=============================================================================
