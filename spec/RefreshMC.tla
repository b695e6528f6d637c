------------------------------ MODULE RefreshMC ------------------------------
(* A client that compares each answer with the one before and lists page by page,  *)
(* against a target that changes at any moment.  Every step of it has to be one    *)
(* which Refresh allows, and once nothing changes any more it knows the tags there *)
(* are.  Careless ones are found: see Careless.                                    *)
EXTENDS Refresh, Json

CONSTANTS Want, MaxChanges, MaxConns, MaxPolls, Pages, Careless, Gen

VARIABLES base, pc, page, known, polls, ok, hist
vars == <<rvars, base, pc, page, known, polls, ok, hist>>

\* two tags, which change places; another one that comes and goes; split over pages
TagsOf(v) == IF v % 2 = 0 THEN ("a" :> 1) @@ ("b" :> 2) ELSE ("a" :> 1) @@ ("b" :> 2) @@ ("c" :> 3)

Init == /\ RInit([want |-> Want, props |-> <<1>>], TagsOf(0))
        /\ base = -1 /\ pc = "out" /\ page = 0 /\ known = {} /\ polls = 0 /\ ok = TRUE /\ hist = <<>>

Sees(A) == IF ENABLED A THEN A /\ ok' = ok ELSE ok' = FALSE /\ UNCHANGED rvars

Connect == /\ pc = "out" /\ con < MaxConns
           /\ Sees(Opened(con + 1))
           /\ pc' = "first" /\ hist' = Append(hist, "connect")
           /\ UNCHANGED <<base, page, known, polls>>
Leave == /\ pc = "wait" /\ con < MaxConns
         /\ pc' = "out" /\ hist' = Append(hist, "leave")
         /\ UNCHANGED <<rvars, base, page, known, polls, ok>>

Lists(first) == CASE Careless = "eager" -> TRUE
                  [] Careless = "late" -> Want /\ ~first /\ now # base      \* not at the beginning
                  [] Careless = "once" -> Want /\ first
                  [] Careless = "always" -> Want
                  [] OTHER -> Want /\ (first \/ now # base)

Ask == /\ pc \in {"first", "wait"} /\ polls < MaxPolls
       /\ Sees(Poll(con, IF Careless = "props" /\ pc = "wait" THEN <<>> ELSE <<1>>))
       /\ polls' = polls + 1
       /\ base' = IF Careless = "stuck" /\ pc = "wait" THEN base ELSE now
       /\ IF Lists(pc = "first") THEN pc' = "list" /\ page' = 1 ELSE pc' = "wait" /\ page' = page
       /\ hist' = Append(hist, "poll")
       /\ UNCHANGED known

More == /\ pc = "list"
        /\ Sees(Page(con, page = 1, page = Pages, FALSE))
        /\ known' = IF page = 1 /\ Careless # "keep" THEN DOMAIN TagsOf(now) ELSE known \cup DOMAIN TagsOf(now)
        /\ IF page = Pages \/ Careless = "half" THEN pc' = "wait" /\ page' = 0 ELSE pc' = "list" /\ page' = page + 1
        /\ UNCHANGED <<base, polls, hist>>

Alter == /\ now < MaxChanges
         /\ Change(now + 1, TagsOf(now + 1))
         /\ hist' = Append(hist, IF pc = "list" THEN "midchange" ELSE "change")
         /\ UNCHANGED <<base, pc, page, known, polls, ok>>

\* after a poll since the last change, and what it brought
Calm == pc = "wait" /\ seen = now /\ list = "none"
Next == Connect \/ Leave \/ Ask \/ More \/ Alter
Spec == Init /\ [][Next]_vars

Allowed == ok
Knows == Calm => ENABLED Settled(known)
\* a client that has polled since the last change and is at rest owes nothing
Kept == (pc = "wait" /\ seen = now) => list = "none"
Emit == (Gen /\ pc = "wait" /\ polls = MaxPolls) => PrintT("SCN " \o ToJson([want |-> Want, ops |-> hist]))
==============================================================================
