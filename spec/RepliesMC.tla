------------------------------ MODULE RepliesMC ------------------------------
(* A client that keeps to Replies, against a target that damages any reply: the    *)
(* client may do only what Replies allows.  Careless is one way in which a client   *)
(* does not keep to it.  Also generates the sequences of damages.                   *)
EXTENDS Replies, Json
CONSTANTS MaxReq, Careless, Gen
VARIABLES place,     \* what is at the caller's place
          todo,      \* requests left
          opt,       \* the next one is optional
          out,       \* "", "ok", "err": what the client is about to return
          hist, ops

mvars == <<rvars, place, todo, opt, out, hist, ops>>

Kinds == {"good", "status", "encap", "cut", "body", "count", "odd", "data", "lost", "stray"}
Rep(k, o) == [optional |-> o, svc |-> READ, full |-> 10, head |-> 6, sent |-> IF k \in {"cut", "body"} THEN 7 ELSE 10,
              st |-> IF k = "status" THEN 5 ELSE 0, encap |-> IF k = "encap" THEN 1 ELSE 0, ends |-> k # "lost",
              count |-> k = "count", fault |-> k # "good", data |-> k = "data", stray |-> k = "stray"]

MCInit == RInit /\ place = "was" /\ todo = 0 /\ opt = FALSE /\ out = "" /\ hist = <<>> /\ ops = 0

Start == /\ ~op.on /\ ops < (IF Gen THEN 1 ELSE 2) /\ ~stray
         /\ \E n \in 1..MaxReq, o \in {FALSE} : todo' = n
         /\ \E o \in (IF Gen THEN {FALSE} ELSE BOOLEAN) : opt' = o
         /\ Begin("x", "was", "want", FALSE)
         /\ place' = "was" /\ out' = "" /\ ops' = ops + 1
         /\ UNCHANGED hist

Sees(k) == CASE k \in {"status", "encap"} -> Careless # "status"
             [] k \in {"cut", "body", "count"} -> Careless # "short"
             [] k = "lost" -> TRUE
             [] OTHER -> FALSE

Get == /\ op.on /\ out = "" /\ todo > 0
       /\ \E k \in Kinds, noticed \in BOOLEAN :
            /\ Reply(Rep(k, opt))
            /\ noticed => k \in {"odd", "data"}
            /\ hist' = Append(hist, k)
            /\ IF (Sees(k) \/ noticed) /\ ~opt
               THEN out' = "err" /\ UNCHANGED place
               ELSE /\ place' = IF Careless = "early" THEN "part" ELSE IF todo > 1 THEN place
                                ELSE IF k = "data" \/ (Careless = "short" /\ k \in {"cut", "body"}) THEN "junk" ELSE "want"
                    /\ out' = IF todo = 1 THEN "ok" ELSE ""
       /\ todo' = todo - 1 /\ opt' = FALSE
       /\ UNCHANGED ops

Finish == /\ op.on /\ out # ""
          /\ Return(out = "ok", IF place = "junk" /\ op.free THEN op.want ELSE place)
          /\ out' = "" /\ UNCHANGED <<place, todo, opt, hist, ops>>

Reads == /\ ~op.on /\ ops > 0
         /\ \E try \in {1, 2}, ok \in BOOLEAN :
              /\ ok = (try = 2 \/ ~stray)
              /\ Use(try, ok, "probe", "probe")
         /\ UNCHANGED <<place, todo, opt, out, hist, ops>>

MCNext == Start \/ Get \/ Finish \/ Reads
Spec == MCInit /\ [][MCNext]_mvars

\* what the client is about to do is allowed
Allowed == (op.on /\ out # "") => ENABLED Finish
\* no operation that was answered only with good replies fails, and none that was refused succeeds
Untouched == (~op.on /\ ops > 0 /\ hist # <<>> /\ place # "was") => place # "part"

Emit == (Gen /\ ~op.on /\ ops = 1) => PrintT("SCN " \o ToJson(hist))
=============================================================================
